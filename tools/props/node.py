LP="crates/network-libp2p/src/"; CF="crates/config/src/"; GW="bin/worker-gateway/src/"
P("N01", "h-node", "A temporarily banned peer stays banned for its time, and the list stays bounded",
"""The reconnection ban list answers that it holds a peer exactly while the peer's ban runs: from the time it was last put in until it is removed, has been displaced, or the first heartbeat at or after the full duration. Banning a peer again restarts its time. The list never holds more than its limit (at
least one): a new peer beyond it displaces the one banned longest ago, which is returned, and only that one. Heartbeats return exactly the expired peers, oldest first, each once.""",
["histories"], "every sequence up to a depth of bans and removals of four peers, heartbeats and waits that meet expiry exactly, one nanosecond early and late, for several limits and durations; crowds of up to 120 bans that run out at once or apart",
"Tests follow one list through one story; expiry, refresh and displacement interact over histories.",
[LP+"peers/cache.rs"], [("BannedPeerCache", LP+"peers/cache.rs")], ["results of insert, remove, heartbeat, contains and len"],
"exhaustive enumeration of operation sequences on the real code under a virtual clock, against a list model",
"Complete within the depth; the file's `std` clock is replaced by one the harness moves.", state=[("BannedPeerCache", "banned keys with the time of their ban", LP+"peers/cache.rs")])
P("N02", "h-peers", "Peers are banned for cause, for their time, and never when they are exempt",
"""A peer scoring at or below the ban threshold is refused for at least the lockout, through any later event, and not exempt it loses its connections; its score falls by what each report costs and heals by half every half-life once the lockout is over. Members of a tracked committee and the operator's peers are exempt: they lose
no score, are not cut off for excess, and becoming exempt lifts any ban. An address is refused exactly while more than one banned peer connected from it. The peer manager and the network layer agree on who is connected, banned and unbanned, also when an identity moves to another key; each dial is answered. A ban belongs to the confirmed identity whatever its network key. Once every
ban has run out, every peer can be dialled and let in again and no address stays refused.""",
["histories"], "every history up to a depth of connections, dials and their failures, closings, reports, goodbyes, records binding identities, committee changes and heartbeats of three peers, sharing addresses or not, with ample and exhausted limits",
"Tests drive one peer through one story each; a ban, its address count and the connection it ends interact over histories of several peers.",
[LP+"peers/manager.rs", LP+"peers/all_peers.rs", LP+"peers/peer.rs", LP+"peers/score.rs", LP+"peers/banned.rs", LP+"peers/behavior.rs"],
[("PeerManager as NetworkBehaviour", LP+"peers/behavior.rs"), ("AllPeers status transitions", LP+"peers/all_peers.rs"), ("Score", LP+"peers/score.rs")], ["connections let in and cut, events to the network layer, scores, dial replies"],
"exhaustive enumeration of histories on the real peer manager behind its swarm interface, with a stand-in swarm and a virtual clock, against independent accounts of scores, bans and connections",
"Complete within the depths (up to 7 operations quick, 9 thorough). Peer exchange and discovery dialling are not driven; a committee member is one peer.",
state=[("AllPeers", "peer records, connection states, ban and address counts", LP+"peers/all_peers.rs"), ("PeerManager", "temporary bans, queued events and dials", LP+"peers/manager.rs")])
P("N03", "h-node", "Configuration files load as written, and loading never costs a user their file",
"""A configuration written in either format reads back equal, and replaces whatever was there. Strict loading of a missing, unreadable or malformed file is an error and changes nothing; loading with defaults creates the file with the default value when it is missing, and neither overwrites nor truncates one that
exists but does not parse. A file naming only some network settings takes the others from the defaults; every setting survives writing and reading, except the chain id, which never comes from the file. The node's directory layout is a fixed function of its base directory.""",
["histories", "inputs"], "every sequence up to a depth of strict loads, default loads and writes in both formats over every kind of content of the path, every length of a longer file overwritten by every value, and each network setting changed or absent alone",
"Tests round-trip one value in an empty directory.",
[CF+"traits.rs", CF+"network.rs"], [("ConfigTrait / TelcoinDirs", CF+"traits.rs"), ("NetworkConfig", CF+"network.rs")], ["loaded values, errors, file contents"],
"exhaustive enumeration of operation sequences over real files in a scratch directory against a model of the path",
"Complete within the depth and the listed contents.")
P("N04", "h-node", "Metrics appear under their scope, with their own labels, values and buckets",
"""Once the recorder is installed, a counter, gauge or histogram whose name starts with `tn_` or `tn.` is shown under that name and any other under `reth_` and its name, description likewise, with exactly its own labels and value. Histograms ending in `_seconds` or `_bytes`, and the four named block and batch
histograms, are shown with their fixed bucket bounds, a value on a bound counting below it; others show quantiles. However many threads install it, all get the same recorder, and installing over a foreign recorder is an error.""",
["inputs"], "every name of up to four (five) characters of the ones that decide the scope, with every relevant suffix, and node metric names with every prefix, as each kind of metric, with values on and beside every bound",
"Tests look at a handful of names.",
["crates/tn-metrics/src/recorder.rs"], [("TnPrefixRecorder, install_recorder", "crates/tn-metrics/src/recorder.rs")], ["the rendered text"],
"exhaustive enumeration of names on the real recorder against an independent statement of the naming rule",
"Complete within the name length; the Prometheus exporter itself is taken as it is.")
P("N05", "h-node", "The penalty for over-reserving gas follows its published formula exactly",
"""A transaction whose limit is at most 210,000 gas or that uses at least a tenth of it pays no penalty. Otherwise the penalty is the unused gas times the square of the shortfall of used/limit below 0.1, scaled so that using nothing costs everything unused, in integer arithmetic rounding down; it is never
more than the unused gas, never grows as more is used, and never overflows.""",
["inputs"], "every amount used for a set of limits around the thresholds, and pairs of boundary values of both over the whole 64-bit range",
"Every node must compute the same charge; tests sample a few pairs.",
["crates/tn-reth/src/evm/utils.rs"], [("calculate_gas_penalty", "crates/tn-reth/src/evm/utils.rs")], ["the penalty"],
"exhaustive enumeration of the real function against the documented formula in wide arithmetic",
"Complete for the listed limits and boundary grid.")
P("N06", "h-gateway", "Whatever the gateway answers itself is a well-formed error with the caller's id",
"""Each failure of the gateway's own is answered with its fixed HTTP status, JSON-RPC code and message, as JSON, and counted once as rejected and once under its fixed reason. The answer carries the id of the request: the value of the last top-level `id` member of a body that is one well-formed JSON object,
whatever its type, place and spelling and however deep or large the rest, and null for a batch, a malformed, truncated or id-less body. The in-flight gauge is the number of requests being served however they end, and each is timed once. A gateway configuration loads exactly as written, in order, and a missing or malformed file is
an error that changes nothing.""",
["inputs", "histories"], "bodies with members in every order, ids of every JSON type, repeated, escaped, nested and deep, and every truncation, for every failure; every sequence of requests entering and leaving; configuration files with every member right, wrong or missing",
"Tests show one body per failure.",
[GW+"error.rs", GW+"config.rs", GW+"telemetry.rs"], [("error_response, RequestId::recover", GW+"error.rs"), ("RequestInFlight, record_rejection", GW+"telemetry.rs"), ("GatewayConfig::load", GW+"config.rs")], ["responses, counters, loaded configuration"],
"exhaustive enumeration of bodies, failures and operation sequences on the real code against an independent statement",
"Complete over the listed shapes.")
P("N07", "h-gateway", "A client gets its rate and burst, its network's share, and no more",
"""A request is admitted exactly when the gateway-wide bucket and then the bucket of the client's network hold a token: each starts full at its burst and gains its rate per second up to the burst. Addresses share a bucket exactly when they agree on the configured prefix of their family, an IPv4 address mapped into IPv6
counting as IPv4. A request refused gateway-wide costs its client nothing. When the table of networks is full, new ones are only limited gateway-wide. Sweeping idle buckets changes no later decision except by making room. No configured limit means no limiter.""",
["histories", "inputs"], "every sequence up to a depth of requests from several addresses, waits and sweeps under every combination of a set of limits; every prefix length with every pair of addresses differing in one bit",
"Tests follow a few sequences under one configuration.",
[GW+"ratelimit.rs"], [("RateLimiters::check / gc", GW+"ratelimit.rs"), ("PrefixPolicy::key", GW+"ratelimit.rs")], ["admitted or refused"],
"exhaustive enumeration of request histories on the real code under a virtual clock, against integer token accounts",
"Complete within the depth; waits are multiples of 250 ms.", state=[("RateLimiters", "gateway-wide and per-network buckets", GW+"ratelimit.rs")])
P("N08", "h-gateway", "A call reaches the first ready worker once and unchanged, or none",
"""A call goes to the first worker in configuration order whose latest readiness answer was a success saying that very worker accepts transactions; any other, missing, late or malformed answer makes a worker not ready, and with none ready nothing is sent. The worker gets the method, body and content type unchanged, at its configured
URL, with the client's address appended to the forwarding chain and the gateway's mark, and no other header; the client gets the worker's status, body and content type and nothing else. A marked request, an oversized, unfinished or rate-limited one, and a raw-transaction call that does not decode or is of a type batches do not take reach no worker. Every request is
counted once and answered with the failure that stopped it; probes are answered, never limited or counted. An upstream that is the gateway's own address, is not plain http, or a connection cap shorter than a request may take, is refused at start.""",
["inputs", "histories", "fault_sequences"], "every readiness answer from a family including every truncation, every change of readiness of three workers, requests with all combinations of their parts, every failure of a worker, raw transactions of every type with every truncation and type byte, every short sequence of limited requests, and a product of start-up settings",
"Tests show one request per rule against one worker.",
[GW+"server.rs", GW+"proxy.rs", GW+"readiness.rs", GW+"cli.rs"], [("router", GW+"server.rs"), ("proxy, forward, screen_raw_transaction", GW+"proxy.rs"), ("run_poller", GW+"readiness.rs"), ("Cli::into_settings", GW+"cli.rs")], ["requests workers get, answers clients get, counters"],
"exhaustive enumeration of readiness states, requests and faults through the real router and poller against stand-in workers on the loopback network",
"Complete over the listed products. The accept loop (connection caps, header timeouts) is not covered.")
P("N09", "h-node", "Network limits and retries are the configured ones for every setting",
"""Gossip topics are a fixed, distinct function of the chain id. Peer limits derived from a target and its shares are the ceilings of the stated products, score settings are accepted exactly when finite and ordered, and scores halve every half-life. A retried operation is tried again after each transient failure until it succeeds, fails
permanently, or its time is up, never more often; waits grow by the multiplier up to the maximum, within the stated randomness.""",
["inputs", "fault_sequences"], "every target with combinations of shares, every combination of special values of the score settings, every number of transient failures before each final answer under a grid of retry settings and a virtual timer",
"Tests look at the defaults.",
[CF+"network.rs", CF+"retry.rs"], [("LibP2pConfig, PeerConfig, ScoreConfig", CF+"network.rs"), ("RetryConfig::retry", CF+"retry.rs")], ["limits, topics, attempts and their times"],
"exhaustive enumeration of settings and failure sequences on the real code against an independent statement",
"Complete within the listed settings.")
