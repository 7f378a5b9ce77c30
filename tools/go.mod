module veriftools

go 1.24
