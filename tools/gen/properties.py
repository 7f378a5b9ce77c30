#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
H="pkg/cache/httpcache.go"; T="pkg/server/middleware/httpcache.go"; CO="pkg/server/middleware/coalesce.go"
K="pkg/cache/key.go"; CB="pkg/cache/cacheable.go"; CC="pkg/cache/cache_control.go"; S="pkg/server/server.go"; TG="pkg/server/server_target.go"
HA="pkg/server/handlers.go"; LI="pkg/server/server_listener.go"; IM="pkg/provider/inmemory.go"; RC="pkg/provider/redis_client.go"; RM="pkg/provider/remote.go"
CA="pkg/provider/cached.go"; Q="pkg/provider/queue.go"; PR="pkg/provider/provider.go"; KU="pkg/cluster/kubernetes.go"; RQ="pkg/cluster/rqueue.go"
AP="pkg/api/api.go"; FI="pkg/api/filter.go"; KA="pkg/kache/kache.go"; LO="pkg/config/loader.go"; CF="pkg/config/config.go"; EN="pkg/cache/entry.go"; MA="cmd/kache/main.go"
def m(name, where): return {"name":name,"where":where}
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":mech,"observe_at":observe,"hook_needed":None}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Every response is one genuine upstream response for the requested resource",
 "Every complete response a client gets for a proxied request is, in status, header fields and body, one single response that the upstream configured for that URL really sent for that very resource (same upstream, same path, same query up to parameter order), completed by at most the header update of a successful revalidation and the proxy's own documented header fields. It is never a mixture of two responses, never truncated, altered or duplicated, never taken from another URL, and a response the upstream did not finish is never passed off as complete nor kept for others. This holds for hits, misses, revalidations and shared responses alike, with every storage backend.",
 ["schedules","inputs","fault_sequences","histories"],
 "for all interleavings of concurrent requests, URLs that differ only in encoding, query or path cleaning, framings, latencies, connection resets and truncations on the upstream and storage links",
 "The tests use single requests against an httptest server; nothing covers concurrent misses of colliding URLs, half sent bodies, or storage failing between two requests.",
 [K,H,T,CO,EN,S,TG,IM,RC,CA],[m("cache key derivation",K+" NewKeyFromRequst"),m("store on end of body",T+" RoundTrip"),m("request coalescing",CO),m("target selection",TG+" MatchTarget"),m("entry encoding",EN)],
 ["bytes received by simulated clients vs bytes sent by simulated upstreams"])

prop("C02","Non-shareable responses are never stored or given to another client",
 "A response that its Cache-Control marks no-store or private, or that answers a request which asked for no-store or carried credentials (Authorization) without the response explicitly allowing shared use, is delivered only to the request it was made for. It is neither written to any cache backend nor handed to any other request, including one that was waiting for the same resource at the same time. Directives count in any letter case, on any of several header lines, and whatever else the header says.",
 ["schedules","inputs","histories"],
 "for all spellings and combinations of directives on requests and responses, all interleavings of concurrent requests for the same URL, and all backends",
 "The tests check a few header values on isolated functions; whether a response leaks depends on which requests happen to overlap and on which backend operation runs when.",
 [CB,CC,T,CO,H],[m("cacheable request/response predicates",CB),m("directive parsing",CC),m("shareability of coalesced responses",CO+" isShareable")],
 ["who receives which upstream response","values written to Redis"])

prop("C03","A cached response is only served without validation while it is fresh",
 "In strict mode, which is the default, a stored response is used without asking the upstream only while its age is below its explicit lifetime (s-maxage, else max-age, else Expires minus Date) and it is not marked no-cache; without an explicit lifetime it is always revalidated, and must-revalidate allows no staleness at all. Request directives no-cache, max-age and min-fresh tighten this and max-stale may loosen it for that request only; in non-strict mode the requests' own directives are ignored while the responses' directives still hold. Age counts the Age the upstream reported, the time spent in transit and the time in the cache, and clock skew between machines, a missing or a broken Date never make a response younger than it is.",
 ["histories","inputs","schedules","configurations"],
 "for all combinations of response and request directives, ages, clock offsets of upstreams and of nodes that share a store, delays, and request times down to the boundary of the lifetime",
 "The tests evaluate the freshness function on chosen headers with a fixed clock; they do not connect it with what was stored when, by whom, over which transit time and updated by which 304.",
 [H,CC,T,EN],[m("freshness decision",H+" requiresValidation"),m("age calculation",CC+" CalculateAge"),m("strict mode",H+" Strict"),m("update by 304",H+" UpdateHeader")],
 ["simulated time of upstream contact vs time of delivery"])

prop("C04","Revalidation, conditional, range and HEAD requests get the right representation",
 "A stale entry is revalidated with the entry's own validators, a 304 keeps and refreshes exactly the representation it was asked about, and any other answer replaces it. A client only gets a 304, 206 or 412 if its own request carried the conditions or range that call for it, a client's conditional or range request is answered by the upstream or by a complete representation, never by a partial one made for another request, and a HEAD request gets no body and never makes a GET see an empty one. A 304 or 206 obtained for one client never reaches another.",
 ["schedules","inputs","histories"],
 "for all sequences and overlaps of GET, HEAD, conditional and range requests on the same URL, with versions changing at the upstream between and during them",
 "The tests cover one revalidation of one entry; the failures need a change of version, a second client or a range request at the right moment.",
 [T,H,CO,CB],[m("injected validators",T+" injectValidationHeaders"),m("304 handling",T+" RoundTrip"),m("coalescing key and shareability",CO)],
 ["requests seen by the upstream","status, validators and body seen by the client"])

prop("C05","An acknowledged purge, invalidation or flush takes effect at once and exactly",
 "Once the administration API has acknowledged purging a key pattern, invalidating a path or flushing the cache, no response stored before the request is served any more by that node, whatever backend is in use, including operations still queued. A purge removes exactly the keys that match its pattern (a trailing or inner asterisk matches anything, every other character only itself) and leaves all others usable. The key listing names every entry with the requested prefix that can still be served, each once, and nothing that was purged. Nothing outside kache's own Redis database is ever touched.",
 ["schedules","inputs","histories","fault_sequences"],
 "for all interleavings of purges with hits, misses, stores in flight and evictions, for keys and patterns with special characters, and storage delays",
 "The tests call Purge on an idle provider with one plain pattern; nothing purges while stores are in flight or queued, through layers, or with characters that are special to the backend.",
 [HA,IM,RC,CA,Q],[m("purge, invalidate, flush handlers",HA),m("pattern matching",IM+" Purge, wildcardToRegex"),m("redis purge by scan",RC+" Purge"),m("order of queued stores and deletes",RC+" StoreAsync, dropPending"),m("layered deletes",CA)],
 ["responses after the acknowledgement","listing bodies"])

prop("C06","Concurrent identical misses cause one upstream request, without coupling clients",
 "While a cacheable request for a resource is under way at the upstream, further identical requests arriving at the same node wait for it and share its result instead of being sent as well, provided the result may be shared. No client is harmed by this: one client's disconnect, slowness or failure neither fails nor delays the others beyond the upstream's own time, a result that may not be shared sends the waiting ones on individually, and only requests for which sharing is safe ever wait for one another.",
 ["schedules","fault_sequences","inputs"],
 "for all arrival orders and overlaps of identical and similar requests, cancellations at any point, and upstream outcomes (success, error, not shareable, truncated)",
 "The tests start a fixed number of goroutines against one slow handler; the leader being canceled, failing or getting an unshareable answer at each point is not sampled.",
 [CO,T,S],[m("in-flight table",CO+" RoundTrip, release"),m("shareability",CO+" isShareable, "+T+" Shareable")],
 ["number and timing of requests at the upstream","per client outcome"])

prop("C07","The proxy keeps answering: no crash, deadlock, lost request or resource leak",
 "No traffic, fault or administrative action makes the process crash, deadlock or spin; every request that a client does not abandon gets a complete answer, or an orderly error, within the configured timeouts. Once faults stop, requests to a healthy upstream succeed again without a restart, and goroutines and connections used for requests are released.",
 ["schedules","fault_sequences","inputs","histories"],
 "for all mixtures of client behaviour (abort, slow reading, bursts, pipelined reuse, odd requests), upstream and storage faults, and API calls at the same time",
 "The tests are short, mostly sequential and without faults; deadlocks, data races that corrupt state and leaks need an unlucky schedule.",
 [S,LI,CO,T,IM,RC,CA,Q,RQ,KU,LO,KA],[m("listener timeouts",LI),m("error handler",S+" errorHandler"),m("locks of the cache","pkg/provider"),m("job queue",Q),m("retry queue",RQ)],
 ["client outcomes with deadlines in simulated time","process exit, spinning, goroutine counts after quiescence"])

prop("C08","Cache size limits hold and eviction is least-recently-used",
 "The in-memory cache never holds more than its configured maximum size, no item above the configured item size is stored in it or in Redis, and such an item is still delivered to its client. To make room the least recently used items go first, and no item is dropped while everything used since would have fit; deleting, replacing and expiring items frees their space again, so that capacity and memory are not lost over time.",
 ["histories","inputs","schedules","configurations"],
 "for all sequences and interleavings of stores, reads, deletions and expiries of items of any size under any limits",
 "The tests fill a cache with equal items once; accounting errors need replacement, deletion and eviction in combination, over long histories or concurrently.",
 [IM,RC,PR],[m("capacity accounting",IM+" ensureCapacity, onEvict, reset"),m("LRU list",IM),m("redis item limit",RC+" StoreAsync")],
 ["provider operations against a reference LRU","listing sizes through the API","values written to Redis"])

prop("C09","Entries live for the configured TTL, no longer and no shorter",
 "A cached entry is removed once the lifetime configured for its path, or the default one, has passed since it was stored: afterwards it is not served even if its headers would allow it, in memory, in Redis and in the layered cache alike, also when the configured lifetimes change meanwhile or other entries are stored. Before that, it is not dropped on account of age. Every value in Redis carries that lifetime.",
 ["histories","configurations","schedules"],
 "for all configured lifetimes and path patterns, times of storing, replacing and asking, nodes sharing a store, and storage delays",
 "The tests wait for one TTL on one provider; path specific TTLs through the whole proxy, replacement, layering and eviction settings are not combined.",
 [H,IM,CA,RC,PR],[m("TTL choice",H+" PathTTL, DefaultTTL"),m("expiry in memory",IM+" Set, Get"),m("layered TTL",CA),m("redis expiry",RC+" Store")],
 ["simulated time of storing vs serving","TTL of SET commands"])

prop("C10","Cache backends behave like one consistent map under concurrent use",
 "Concurrent get, set, delete, purge, flush and list operations on the in-memory cache have the effect of some order of the operations that respects real time, with values returned exactly as stored. The Redis backed and layered caches never return a value never stored under that key, a value corrupted in transit, or one that a completed delete or purge of the same node has removed, and the last value stored is the one that remains, although stores are asynchronous.",
 ["schedules","histories","fault_sequences"],
 "for all interleavings of operations by several goroutines, with queue limits, evictions, expiries, connection losses and delays to Redis",
 "The tests call the operations one after the other; linearizability is a statement about every interleaving.",
 [IM,RC,RM,CA,Q],[m("mutex",IM),m("ordered async stores",RC+" storePending, takePending, dropPending"),m("layering",CA)],
 ["invocation and response history of provider operations, checked for linearizability"])

prop("C11","A storage outage is invisible to clients and heals by itself",
 "If Redis is slow, unreachable, restarted, emptied or answers with errors, truncated or malformed data, clients still get correct responses from the upstreams: no error, no wrong content and no unbounded delay is caused by the cache. Once Redis works again, caching resumes without intervention.",
 ["fault_sequences","schedules","crash_points"],
 "for all kinds and sequences of storage and network faults at any point of any operation",
 "The tests use a working miniredis; faults in the middle of an operation and recovery are not exercised.",
 [RC,RM,CA,H,T],[m("fetch failure is a miss",RC+" Fetch"),m("async store drops",RC+" StoreAsync, "+Q),m("decode failure is a miss",H+" FetchResponse")],
 ["client outcomes during and after fault windows"])

prop("C12","A purge or configuration update reaches every node of the cluster",
 "With clustering enabled, a purge acknowledged by one node is applied by every reachable node, and so is a configuration update, also if a node is unreachable for less than the retry period; afterwards no node serves what was purged. A change is applied by each node without being passed on again, so that it never multiplies, and it is sent to the nodes of the service only, on the right port, with the same method, path and content, on behalf of the original client.",
 ["schedules","fault_sequences","configurations","histories"],
 "for all cluster sizes, API prefixes, partitions, node restarts and response errors at any point of the broadcast, with several administrators at once",
 "The tests broadcast once to fake endpoints; loops, retries, loss, restarts and access control between nodes are not combined.",
 [KU,RQ,HA,KA,FI],[m("endpoint discovery and broadcast",KU+" Broadcast, Endpoints"),m("retry queue",RQ),m("broadcast marker",HA+" broadcastPurge")],
 ["HTTP requests between simulated nodes","responses of every node after the purge has spread"])

prop("C13","Configuration changes apply completely, at once and only if valid",
 "A changed configuration file, an explicit reload or an update through the API replaces the cache configuration as a whole: every request is handled under configurations that were in force during its time, and after the change is acknowledged only the new one is used and reported. A broken file or body is rejected with an error, leaves the running configuration untouched, and a later good one is applied; concurrent changes end with one of them in force, and the reported configuration is the effective one.",
 ["schedules","histories","fault_sequences","inputs"],
 "for all interleavings of requests with changes from the three sources, broken or partially written files, and read failures",
 "The tests load one good and one bad file; atomicity towards concurrent requests and between sources is not covered.",
 [LO,KA,HA,H],[m("file watcher and loader",LO+" Load, Watch"),m("reload wiring",KA+" reloadConfig, applyConfig"),m("atomic swap",H+" UpdateConfig"),m("API",HA+" CacheConfigUpdateHandler")],
 ["marker header of responses","GET config bodies","reload status codes"])

prop("C14","Shutdown is graceful and complete",
 "When told to stop, the process lets requests it is already processing (of clients and of administrators) finish within the configured grace period, then exits with status 0, without hanging, whatever backend, cluster connections, idle or stuck clients it has. A second signal or repeated ones do no harm.",
 ["schedules","crash_points","fault_sequences"],
 "for all moments of the signal relative to requests, stores, broadcasts, reloads and faults",
 "The tests stop an idle server; the signal arriving at each point of each activity is not sampled.",
 [KA,S,LI,MA,RC,RQ],[m("module run loop",KA+" Run"),m("listener shutdown",LI+" Shutdown, Stop"),m("server stop",S+" Stop, Shutdown")],
 ["process exit code and time","outcome of requests in flight"])

prop("C15","Upstream failures are reported as gateway errors and poison nothing",
 "If the upstream refuses, resets, times out, or answers with something broken, the client gets a 502, 503 or 504 (or an aborted transfer if a body had begun), a URL no upstream is configured for gets 503, and no failure is presented as success. A failure is not cached: as soon as the upstream works again its responses are delivered, and a valid fresh entry stays usable during the failure.",
 ["fault_sequences","schedules","inputs"],
 "for all kinds of upstream failure at any byte of the exchange and any sequence of failure and recovery, with and without a cached entry, alone or with waiting requests",
 "The tests cover one refused connection; failures at every stage of a response, with coalesced waiters or revalidation under way, are not sampled.",
 [S,T,CO,TG],[m("error handler",S+" errorHandler"),m("no store on error",T+" RoundTrip"),m("unmatched target",S+" Director")],
 ["status seen by clients vs fault injected for the exchange"])

prop("C16","Age and cache status headers tell the truth",
 "A response served from the cache carries an Age header equal, up to one second and the disagreement of the clocks involved, to the time since the upstream generated or validated it, and the cache status header, if enabled, says HIT under the configured name; a response fetched from the upstream for this request is never marked as a hit. With the status header disabled it does not appear, and headers of this kind are not invented otherwise.",
 ["histories","inputs","configurations","schedules"],
 "for all histories of storing, revalidating and serving with clock offsets, upstream Age values, and header configurations",
 "The tests compare one Age on a fixed clock; revalidation, sharing between nodes, clock offset and coalescing change what the truth is.",
 [T,H,CC],[m("hit marking",T+" handleCacheHit"),m("age calculation",CC+" CalculateAge")],
 ["Age and X-Kache headers against simulated time"])

prop("C17","The administration API is only usable from allowed addresses",
 "If an access list is configured, API requests from addresses outside of it are denied and have no effect on the cache or its configuration, whatever address family, notation, list of single addresses and networks, or number of concurrent requests; requests from allowed addresses are served. Denied requests are neither executed locally nor passed on to other nodes. The profiling pages are subject to the list too, and exist only in debug mode.",
 ["inputs","configurations","schedules"],
 "for all access lists (addresses, networks, mixtures, both families), client addresses, API paths, prefixes and methods",
 "The tests try a few IPv4 addresses on the filter alone, not all routes of the assembled API.",
 [FI,AP,HA],[m("address filter",FI+" NewIPFilter, Wrap, originalIP"),m("route registration",AP+" createRoutes")],
 ["API status codes per client address, effect on later responses"])

prop("C18","Exclusions and Cache-Control overrides are applied exactly",
 "Requests excluded from caching by path or by header value, and responses excluded by content type and size, are never stored, never served from the cache and never shared, while everything else stays cacheable; only responses with a cacheable status are reused. A configured default Cache-Control applies to responses that have none, or to all if forced, and is then what the client sees and the cache obeys.",
 ["configurations","inputs","histories","schedules"],
 "for all exclusion patterns, header values, content types with parameters, sizes with and without a declared length, and override settings",
 "The tests evaluate the predicates on samples; combined with misses, coalescing, revalidation and changes of configuration they are not covered.",
 [H,T,CB],[m("exclusion predicates",H+" IsExcludedPath, IsExcludedHeader, IsExcludedContent"),m("override",T+" updateCacheControl"),m("cacheable status",CB)],
 ["responses shared or stored although excluded","Cache-Control seen by clients"])

prop("C19","Requests are forwarded to the right upstream unchanged and once",
 "A request that is not answered from the cache reaches the upstream whose path prefix matches first, with its method, path encoding, query, body and end-to-end header fields as the client sent them, the upstream's base path prepended, the upstream's host, and the client's address appended to X-Forwarded-For. Requests other than GET and HEAD are always forwarded exactly once, never answered from or stored in the cache, and never repeated; no request reaches an upstream that no client made, and hop-by-hop fields do not pass.",
 ["inputs","schedules","fault_sequences","configurations"],
 "for all methods, encodings, bodies with and without length, header sets, upstream tables, and connection failures",
 "The tests forward a handful of GETs; encodings, bodies, reuse of broken connections and concurrent traffic are not sampled.",
 [S,TG,T],[m("director",S+" Director, singleJoiningSlash"),m("target match",TG+" MatchTarget"),m("cacheable methods",CB)],
 ["requests as received by simulated upstreams"])

prop("C20","Cacheable fresh responses are in fact reused",
 "After a complete cacheable response with an explicit lifetime has been delivered, and until it expires or is purged or displaced, further requests for the same resource that do not ask for validation are answered from the cache without contacting the upstream, by every node sharing the store. Parameter order and equivalent spellings of the URL do not matter, unrelated requests and failures do not remove it, and a successful revalidation makes the entry fresh again.",
 ["histories","inputs","schedules","configurations"],
 "for all cacheable responses, lifetimes, spellings, backends and interleaved unrelated traffic",
 "The tests show one hit after one miss; which histories silently lose an entry is not visible to them, as the answer is right either way.",
 [T,H,K,CB,IM,RC,CA],[m("store on end of body",T+" RoundTrip"),m("lookup",H+" FetchResponse"),m("key canonicalisation",K)],
 ["presence of upstream requests for resources known to be cached"])

prop("C21","Concurrent activities of a process never corrupt or crash one another",
 "Whatever a process does at the same time (requests for the same or different resources, purges, flushes and key listings, configuration updates and reloads, background stores, expiry and eviction, start and shutdown), no two of these activities access the same memory without synchronisation if one of them writes it. The process therefore never crashes on concurrent use of a map or otherwise, and no activity works with half-written values or with data that belongs to another request.",
 ["schedules","histories","configurations"],
 "for all interleavings of all kinds of activity on one node, with every backend, under load, failures, reloads and shutdown",
 "The tests are sequential and run without the race detector; an unsynchronised access shows only if two particular activities overlap at a particular moment, and often only as a rare crash in production.",
 [IM,RC,RM,CA,Q,H,T,CO,S,TG,HA,KA,LO],[m("mutex around the in-memory store",IM),m("pending stores",RC),m("atomic configuration swap",H+" UpdateConfig"),m("in-flight table",CO),m("configuration loader",LO),m("server start and stop",S)],
 ["unordered conflicting memory accesses under a vector clock race detector, panics and fatal errors of simulated processes"])

prop("C22","The metrics count hits and misses truthfully",
 "At any time, the hit counter reported by the metrics endpoint is the number of requests that this process has answered from the cache without asking the upstream, and the miss counter the number of cacheable requests for which it found nothing stored. Each such request is counted exactly once; requests that bypass the cache or are excluded from it, entries that had to be validated first, and requests that waited for the answer to another one are in neither. The counters never decrease while the process runs, and the endpoint always reports both.",
 ["histories","schedules","inputs","configurations"],
 "for all sequences and interleavings of hits, misses, validations, waiting, bypassing and failing requests, with every backend, under faults",
 "The tests never read the metrics; whether they agree with what clients and upstreams saw depends on the whole history and on how requests overlap.",
 [T,CO,H,AP],[m("request counters",T+" RoundTrip, newMetrics"),m("waiting requests are not looked up",CO),m("metrics route","pkg/api/metrics.go")],
 ["counters from GET /metrics against the responses of clients and requests at upstreams"])

prop("C23","Start-up is all or nothing",
 "A started process either serves completely, with every configured listener and the administration API answering, or it terminates within bounded time with an error status and a report, without a crash, without having answered a request and without having left anything in a shared store. It does the latter whenever its configuration cannot be used as it is written (file missing, unreadable or malformed, sections or entries missing or empty, addresses, access list, backend, limits or discovery invalid) or a port is taken, and the former whenever configuration, ports and backends are usable, however often starts have failed before.",
 ["configurations","fault_sequences","crash_points","histories"],
 "for all configuration files, flaws in them, times at which they are replaced relative to crashes and restarts, taken ports and failures of the backends",
 "The tests construct single components from valid settings; no test starts the process, let alone repeatedly while its file, ports and backends change.",
 [MA,KA,CF,LO,LI,TG,FI,PR,RC,IM,"pkg/cluster/cluster.go"],[m("load and validate",MA+" main, "+CF+" Validate"),m("module setup",KA+" setupModules"),m("listeners are bound first",LI+" NewListener")],
 ["exit status and time, open ports and answers of each started process"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"../../properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
