#!/usr/bin/env python3
"""The properties, one call each; writes ../properties.jsonl"""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe, hook_needed=hook)))


prop("C01", "Broker grants each connection only the subjects its credentials justify",
     "A connection is admitted to the broker only when its certificate, signed nonce or token proves it to be a server, client, provisioner, system user or provisionable node allowed by the broker's settings. "
     "An admitted connection can publish and subscribe to exactly the subjects its verified role and token permissions grant, in the account of that role: servers receive only requests for themselves and publish only replies, events and what their token allows, clients publish requests and read only their own reply subjects, provisionable nodes reach only provisioners, and every optional permission absent from the token is denied. "
     "An expired or wrongly signed token, a token issued by someone not trusted for its organisation and purpose, a token of a client, server or system user whose nonce signature does not verify, a purpose that does not match, a wrong password and a certificate of another authority are refused. "
     "The last credentials presented on a connection count, and a connection that closes while it is being considered leaves the broker available to others.",
     ["inputs", "configurations"], "every combination of token purpose, permission flags, collectives, organisational unit, additional subjects, TLS state, allow lists and broker mode",
     "Tests check a few hand picked tokens by listing expected subjects; the grant is a lattice over a dozen independent flags, settings and token kinds whose combinations they do not reach.",
     ["broker/network/choria_auth.go", "broker/network/network.go", "broker/network/network_accounts.go"],
     [("per role permission sets", "broker/network/choria_auth.go"), ("token and nonce verification", "broker/network/choria_auth.go verifyNonceSignature")],
     ["the user registered with the broker for a connection"])

prop("C02", "A request is accepted only from the caller whose credentials signed it",
     "Under the choria security scheme a request is accepted as coming from a caller only when a token issued by a trusted issuer, still valid, names that caller and the signature over the exact request bytes verifies with that token's key, or with the key of a delegator whose token is trusted, valid and grants delegated signing, the delegator then vouching for the caller. "
     "Changing the request bytes, the signature, the caller, the token or the signer, or using a caller token without fleet management permission, makes it rejected; the certificate based scheme likewise only accepts a request signed by a certificate of the trusted authority that names the caller, or that is privileged to name other callers.",
     ["inputs", "configurations"], "every request, caller, token, permission set, delegator, issuer and any alteration of them",
     "Tests cover single accepted and rejected examples; acceptance has to be exact over combinations of signer kind, permission, expiry, issuer chain and byte level tampering.",
     ["providers/security/choria/choria_security.go", "providers/security/filesec/file_security.go", "protocol/v2", "protocol/v1"],
     [("signature and token verification", "providers/security/choria VerifySignatureBytes"), ("caller matching", "providers/security/choria ShouldAllowCaller")],
     ["verdict of the security provider", "requests surfaced by the protocol"])

prop("C03", "Messages survive the wire unchanged and tampered ones are refused",
     "For every message body, addressing, filter, time, lifetime, caller and header set, wrapping a request or reply in its security and transport layers, encoding, decoding and unwrapping yields exactly the same values, in both protocol versions, the bodies of version 1 messages being text. "
     "A reply is tied to the request it answers: it carries the request's id, agent, and is routed to the reply subject of that request. "
     "Altering any covered byte of a signed request or checksummed reply makes unwrapping fail.",
     ["inputs"], "every message content and every single alteration of an encoded message",
     "Tests round trip a fixed small message; field loss only shows on unusual values, sizes and combinations.",
     ["protocol/v1", "protocol/v2", "choria/protocol.go", "message/message.go"],
     [("canonical encodings and hashes", "protocol/v2/secure_request.go, protocol/v1/secure_request.go"), ("reply construction from requests", "choria/protocol.go")],
     ["public constructors and accessors of messages"])

prop("C04", "No bytes from the network can crash a component",
     "Feeding any byte sequence, including structurally valid messages with missing, null or wrongly typed parts, to the decoding of transports, secured requests and replies, requests, replies, lifecycle events, provisioning and agent requests and discovery filters either yields a usable value or an error. "
     "It never crashes, and whatever was accepted can be safely inspected, routed and answered.",
     ["inputs"], "every byte sequence", "Tests decode well formed messages and a few malformed ones; the input space is unbounded.",
     ["protocol/v1", "protocol/v2", "choria/protocol.go", "lifecycle", "providers/agent/mcorpc", "broker/federation", "broker/adapter"],
     [("schema validation and decoding", "protocol/v1/schema.go, protocol/v2")], ["decoders and accessors reachable from received messages"])

prop("C05", "Servers process only timely requests for their collectives, filters and agents",
     "A request is given to an agent only when it is within its lifetime counted from its creation time and created no further than that in the future, was sent to a collective and agent the server serves, and its filter matches the server. "
     "Requests that are too old, too far in the future, whose filter does not match, for an unknown, denied or removed agent or for a collective the server is not a member of never invoke an agent and produce no reply.",
     ["inputs", "configurations"], "every request time, lifetime, collective, agent and filter", "Tests check single examples of each rejection; the boundaries and combinations are not sampled.",
     ["server/processor.go", "server/discovery/discovery.go", "server/agents/agents.go", "protocol", "message"],
     [("message validity", "protocol ValidateTTL / server/processor.go"), ("filter match before dispatch", "server/discovery")], ["agent invocations and replies"])

prop("C06", "Discovery filters select exactly the nodes that satisfy them",
     "A node matches a filter exactly when it satisfies every identity, class, agent, fact and compound part of it: plain values match exactly, values in slashes match as regular expressions, within identities any one entry suffices, within classes, agents, facts and compound expressions every entry must hold, and a filter that is empty matches. "
     "Class names match without regard to case while identities and agents are case sensitive, regular expressions are unanchored, a filter part that cannot be evaluated on a node makes it not match, and encoding a filter for the wire and decoding it keeps its meaning.",
     ["inputs"], "every filter and every node state", "Tests use a handful of filters; the semantics is a conjunction over lists, regular expressions and node data.",
     ["filter", "protocol/filter.go", "server/discovery/discovery.go"],
     [("matchers", "filter/{agents,classes,facts,identity,compound}")], ["match verdict of the server's discovery"])

prop("C07", "Fact comparison follows its documented operators",
     "For any fact value and operator, the verdict equals the documented comparison: equality and inequality are exact opposites, strings compare without regard to case, ordering is strict or inclusive as written and numeric for numbers, a regular expression operator matches by case insensitive regular expression, and a fact that does not exist, is null or is structured, or a comparison that cannot be evaluated, never matches. "
     "Several fact files merge with later ones overriding earlier ones, and parsing a fact filter string yields the fact, operator and value written and rejects malformed ones.",
     ["inputs"], "every fact document, fact path, operator and operand", "Tests pin a few values per operator, not the boundaries and types.",
     ["filter/facts", "protocol/filter.go"], [("operators", "filter/facts/matchers.go")], ["fact match verdict"])

prop("C08", "Action policies allow exactly what the policy file says",
     "A request is allowed by an action policy exactly when the first rule whose caller, action, fact and class conditions all hold says allow, and otherwise when the policy default says allow; a missing policy file falls back to the default policy only when configured and otherwise to the configured default, which denies unless unconfigured access was enabled. "
     "Lines that are not rules never decide anything, a rule whose fact or class condition cannot be evaluated denies, and an unreadable policy denies.",
     ["inputs", "configurations"], "every policy file, request and node state", "Tests use fixed policy files; the rule language is open ended.",
     ["providers/agent/mcorpc/authz_actionpolicy.go"], [("rule evaluation", "providers/agent/mcorpc/authz_actionpolicy.go")], ["authorization verdict of an agent request"])

prop("C09", "Every authorization system denies unless it positively allows",
     "When authorization is enabled an action runs only after the configured authorization system positively allowed that caller, agent and action; Rego and embedded token policies allow only when their policy evaluates to true. "
     "Missing, empty or failing policies, unknown authorization systems, policies that yield anything but true and callers without a token are denied and the action is never invoked.",
     ["inputs", "configurations"], "every authorization setting, policy, caller and action", "Tests exercise each system on single policies and not the failure cases together with dispatch.",
     ["providers/agent/mcorpc/agent.go", "providers/agent/mcorpc/authz_rego.go", "providers/agent/mcorpc/authz_jwt.go", "opa"],
     [("authorize before dispatch", "providers/agent/mcorpc/agent.go HandleMessage")], ["action invocations against the verdict of a reference policy"])

prop("C10", "Action input is accepted exactly when it satisfies its DDL",
     "A set of inputs is accepted for an action exactly when every required input is present, no undeclared input is given, and every value has the declared type and satisfies its declared maximum length, list, regular expression, address or shell safety validation; defaults fill only inputs that were not supplied. "
     "Converting textual input to typed input yields a value of the declared type or an error, and output defaults only fill absent outputs.",
     ["inputs"], "every DDL and every input set", "Tests validate a few inputs; acceptance is a function of type, validation and value.",
     ["providers/agent/mcorpc/ddl/common", "providers/agent/mcorpc/ddl/agent", "validator"],
     [("input validation", "providers/agent/mcorpc/ddl/common/common.go")], ["acceptance of inputs"])

prop("C11", "Validators accept exactly their documented language",
     "A value declared shell safe contains none of the backtick, $, ;, |, &&, > and <, an address validator accepts exactly the textual addresses of its family, a maximum length counts the given value, an enumeration accepts only its members, a regular expression validator accepts exactly matching values and a duration validator exactly parsable durations. "
     "Structure validation reports a violation exactly when one field violates its declared validation.",
     ["inputs"], "every string and structure", "Tests list examples only.",
     ["validator"], [("validators", "validator/*")], ["validation verdict"])

prop("C12", "Every dispatched request yields exactly one correct reply",
     "For any mix of concurrent requests, each one accepted by an agent invokes at most one action once, produces exactly one reply, none when the agent asks for none or overruns its timeout, carrying that request's id and the agent's result, and is audited before it runs when auditing is on. "
     "A request for an unknown action, with undecodable input or that is not authorized produces a reply with the documented failure status and invokes nothing, an action that overruns never affects other requests, registering, replacing, denying or removing agents concurrently never corrupts dispatch, an agent that fails to register is not listening and can register later, and a server stops promptly however many requests are in progress.",
     ["schedules", "histories", "inputs"], "every interleaving of requests and agent management", "Tests send one request at a time.",
     ["server/agents", "server/processor.go", "providers/agent/mcorpc/agent.go"],
     [("dispatch", "server/agents/agents.go Dispatch")], ["invocations, replies and audit records"])

prop("C13", "A client's result accounting matches the replies that arrived",
     "After a request the client reports exactly the nodes discovered, responded, failed and silent: every reply counts once by its status and the first from an expected node marks it as having responded, a node without a reply is reported as no response and never as success, unexpected and duplicate replies never inflate the responses of expected nodes. "
     "Every reply is handed to the caller's handler exactly once, batches cover every target exactly once in groups no larger than asked, limits select exactly the asked number or percentage of the discovered nodes, and reply filters only hide, never alter, results.",
     ["histories", "schedules", "inputs"], "every set of targets, arrival order, loss, duplication, batch size and worker count", "Tests use two or three replies in order.",
     ["providers/agent/mcorpc/client", "client/client"], [("statistics", "providers/agent/mcorpc/client/stats.go"), ("batching", "providers/agent/mcorpc/client/client.go")], ["statistics, handler calls and published messages"])

prop("C14", "Submitted messages are delivered reliably and in order, or expire",
     "A message accepted by the submission spool is kept across restarts and crashes until it is delivered, expires or exhausts its attempts, is published with its own subject, payload, signature and headers, and once delivered is never published again by that spool. "
     "Messages past their lifetime or attempt limit are discarded and never published, an unreliable message is attempted once only. Of one priority, messages due at the same time are published in the order they were submitted and, after a reliable message failed, no later reliable one is published in the same round. "
     "Invalid messages are refused, as are messages for a priority that holds more than the configured maximum, and nothing found in the spool directory stops the others from being delivered.",
     ["histories", "crash_points", "fault_sequences", "schedules"], "every history of submissions, publish failures, crashes and restarts", "Tests submit a few messages into a working store.",
     ["submission"], [("disk spool", "submission/disk_spool.go"), ("publishing", "submission/spool.go")], ["publishes seen by the broker against submissions and the spool directory"])

prop("C15", "Autonomous machines move only along their declared transitions",
     "A started machine is always in exactly one declared state, enters a new state only through a declared transition valid from its current one, rejects every other event unchanged, and notifies each change once with the true origin and destination; machines that are not started or were stopped do not move. "
     "Watchers are told of every change and are active only in the states, and foreign machine states, they are declared for. Machine data survives restarts as last stored. The agent hosts exactly the valid definitions found on disk, replaces those that changed and stops those removed; invalid definitions are refused, never run and never disturb others, however loads, removals, transitions and shutdown interleave.",
     ["inputs", "schedules", "histories", "crash_points"], "every machine definition, event history and interleaving", "Tests drive single transitions of one machine.",
     ["aagent/machine", "aagent/watchers", "aagent/aagent.go"], [("state machine", "aagent/machine/machine.go")], ["state, transition notifications and watcher activity"])

prop("C16", "Watchers turn observed conditions into exactly the declared transitions",
     "Watchers start checks only in the states they watch and never after being stopped. An exec watcher asks for its success transition when its command succeeded and for its failure transition on any other end, including timeouts, once per check; a file watcher asks for success once per change and for failure at each check finding no file, and managed files hold their contents and mode after each check; "
     "an expression watcher asks once per change of outcome of its expressions and not at all on evaluation errors; a nagios watcher asks for the state named by the exit code of its plugin or else UNKNOWN. A timer asks exactly once per entry into its states, at its time, and not once they were left. A schedule asks for success when a window opens or its states are entered in a window, unless asked not to repeat that in one window, and for failure when the window closes or its states are entered outside of one. Hostile command output never crashes the server.",
     ["inputs", "schedules", "histories"], "every command outcome, output, file history, state history and timing", "Tests cover one run of each outcome.",
     ["aagent/watchers"], [("state dispatch", "aagent/watchers/*/")], ["transitions requested by watchers"])

prop("C17", "Only verified content is deployed as machines and plugins",
     "A downloaded archive is activated exactly when its own checksum, that of its list of checksums and those of all files on the list match; otherwise - altered, truncated or missing listed files, entries escaping the target directory, devices - what was there before stays in place, nothing is written elsewhere and nothing is left behind, while what is already in place and verifies is not downloaded again and what was altered later is repaired. "
     "A directory verifies exactly when all files listed in its checksums are there unaltered, reporting those that are not. Specifications of managed machines and plugins that carry no valid signature (when a key is configured) or are incomplete change nothing and never crash; valid ones leave exactly the specified machines that match the node managed as specified, and when purging remove exactly the managers, with their content, no longer specified or matching, leaving all else alone and nothing unmanaged behind when interrupted.",
     ["inputs", "fault_sequences", "histories"], "every archive, checksum list, specification and single alteration of them", "Tests use one good and few bad archives.",
     ["aagent/watchers/archivewatcher", "aagent/watchers/machineswatcher", "aagent/watchers/pluginswatcher", "internal/util/sha256sum.go"],
     [("verification", "internal/util/sha256sum.go"), ("signature", "aagent/watchers/machineswatcher")], ["content of target directories"])

prop("C18", "At most one candidate leads and leadership changes are always reported",
     "Among any number of candidates competing for one election at most one at a time was told it won without since being told it lost, as long as the network answers or fails within 40% of the lease. A candidate is told it won once per acquired lease and only after renewing it, it is told it lost at once when the lease can not be renewed or was taken, and never without having had it. What a candidate says about itself agrees with what it was told. "
     "An undisturbed leader remains leader, and an election without one gets one once the network allows it. Stopping a candidate, at any time including while starting, never blocks, ends the campaign promptly with no further campaigns and reports the loss of leadership; an election that failed to start can be started again.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of candidates, renewals, failures and stops", "Tests run one scenario of candidates against a real stream.",
     ["providers/election/streams"], [("key value lease", "providers/election/streams/election.go")], ["won, lost and campaign notifications and the lease key history"])

prop("C19", "A governor never admits more than its capacity and releases its slots",
     "At every moment at most the configured number of workers hold a slot of a governor, each its own and in its name; a worker enters only after being granted a slot, its slot, and only that one, is released when it finishes and is reusable at once, and a worker that gives up while it is refused holds nothing and can try again. An attempt whose outcome is unclear is not repeated. "
     "Operators see, evict and reset the real entries, and looking at a governor does not change it.",
     ["schedules", "fault_sequences", "histories"], "every interleaving of starting, finishing and failing workers", "Tests run few sequential workers.",
     ["providers/governor/streams"], [("bounded stream", "providers/governor/streams/governor.go")], ["concurrent slot holders"])

prop("C20", "Detached jobs are recorded, controlled and reported faithfully",
     "A job started by the execution supervisor is recorded before it runs, its recorded start, pid, output, exit code, signal and termination reflect what the process really did, its captured output is byte exact and in order, and so is the output it publishes, under the right stream and between the messages announcing its start and its exit. "
     "Another process can load, list, signal and determine the status of jobs from the records, a job that ended is never confused with another process using its pid. "
     "Listing selects exactly the jobs that satisfy every given filter, and environment and arguments reach the command unchanged.",
     ["inputs", "histories", "schedules", "crash_points"], "every command, output, exit and signal history", "Tests never start a job.",
     ["providers/execution"], [("supervisor", "providers/execution/exec.go")], ["job records and submitted messages against real process behaviour"])

prop("C21", "Managing jobs remotely requires authorization of the caller",
     "The executor agent signals a job only for callers that the authorization policy allows to run the action that made the job, and reveals the command of a job in its status only to those. Callers that are allowed can signal, inspect and list. "
     "Unknown, missing or malformed job ids, signals and job ids naming files outside the job spool are refused without touching or revealing anything, and a refused request changes nothing.",
     ["inputs", "configurations"], "every caller, policy, action, job id and job state", "The agent has no tests.",
     ["providers/agent/mcorpc/golang/executor"], [("per job authorization", "providers/agent/mcorpc/golang/executor/util.go")], ["replies and effects of the agent's actions"])

prop("C22", "Provisioning changes a node only in provisioning mode with the right token",
     "The provisioning agent configures, restarts, reprovisions, fetches or generates key material only when the node is in the mode that action requires and, when a token is configured, the request carries exactly that token; anything else is refused with no file written or restart scheduled. "
     "A request that cannot be applied completely (an undecodable or unusable configuration, key, file or policy name) changes nothing, files are written only below the configured locations, and a server that has locked provisioning in favour of one provisioner refuses others until that one was idle for the lock window. Self updates happen only when they are enabled.",
     ["inputs", "configurations", "schedules"], "every mode, token, configuration and interleaving of requests", "Tests check each action once.",
     ["providers/agent/mcorpc/golang/provision"], [("mode and token gates", "providers/agent/mcorpc/golang/provision")], ["replies, files and restarts"])

prop("C23", "Federation routes every message once to the right side",
     "A federated request entering a federation broker is delivered exactly once to each of its targets in the collective with the original body and identity and a reply path that leads back through that federation, and each reply comes back exactly once to the original requester's reply subject, as long as the broker keeps up with the load (a NATS client discards what overruns it). "
     "Messages that are not federated or are malformed are dropped without affecting others, and every hop is recorded in order.",
     ["inputs", "schedules", "histories"], "every mix of requests, replies and hostile messages with several workers", "Tests push single messages through the transformer.",
     ["broker/federation", "protocol"], [("request and reply transformers", "broker/federation")], ["messages published on either side"])

prop("C24", "Data adapters forward every message once with faithful metadata",
     "Every message received by a data adapter, with a text body and while the adapter is not overrun, is published exactly once to its destination with body, sender, time and request id as received and its place in the destination determined by the sender; malformed input and messages whose sender cannot be part of a destination are dropped and counted, never published elsewhere, and never stop the adapter or affect other adapters of the same broker.",
     ["inputs", "histories", "schedules"], "every message and arrival order", "Adapters have no tests.",
     ["broker/adapter"], [("transformer", "broker/adapter/transformer"), ("workers", "broker/adapter/ingest, broker/adapter/streams")], ["messages published by the adapter"])

prop("C25", "Configuration means what was written, last writer wins",
     "For any configuration file every recognised setting takes the typed value written for it, with defaults for absent ones, environment overrides applied where declared and later sources overriding earlier ones; unrecognised settings stay available verbatim. "
     "A boolean is true only for the documented true words and false for any other text. Assigning a value of the wrong type or one that violates its declared validation reports an error, a value of the wrong type leaves the setting as it was, and no configuration input crashes the process.",
     ["inputs", "configurations"], "every configuration text and key", "Tests parse fixed files.",
     ["config", "confkey"], [("parsing", "config/util.go, confkey/confkey.go")], ["parsed settings"])

prop("C26", "Lifecycle events round trip and version tallies stay conserved",
     "Any lifecycle event, in either wire format, decodes to an event of the same type, component, identity, version, time and id and is announced on the subject of its type and component; anything that is not such an event is rejected. "
     "After any history of startup, alive, shutdown and expiry events the tally for each component and version equals the number of distinct nodes last seen alive with it and never goes negative.",
     ["inputs", "histories"], "every event content and history of events", "Tests use one event of each type and short histories.",
     ["lifecycle", "lifecycle/tally"], [("event parsers", "lifecycle"), ("observations", "lifecycle/tally/tally.go")], ["decoded events and exported gauges"])

prop("C27", "External agents are run exactly as declared and reconciled with disk",
     "The set of active external agents converges to the definitions on disk: added ones are registered once, ones whose version or location changed are replaced, removed ones unregistered, others untouched; changes made within the 5 second grace period are taken up by a later pass. One definition per name is used, and a reserved name, an invalid definition or a program that declines activation never makes an active agent. "
     "An external action runs its program exactly once, and only for input valid under its definition; the program receives exactly the request with its caller, data, collective, facts and environment, and its reply, with defaults applied and numbers unaltered, or its failure, timeout or lack of a reply is reported faithfully.",
     ["histories", "inputs"], "every history of definition changes, every request and agent behaviour", "Tests reconcile one or two agents.",
     ["providers/agent/mcorpc/external"], [("reconciliation", "providers/agent/mcorpc/external/provider.go")], ["registered agents and replies"])

prop("C28", "Aggregated and filtered results conserve the data",
     "Summaries count every processed value exactly once, averages equal the arithmetic mean of the numeric values, results are the same for any arrival order, and values of any type received from the network never crash the aggregation.",
     ["inputs", "schedules"], "every multiset of values and arrival order", "Tests aggregate a few values.",
     ["providers/agent/mcorpc/aggregate", "providers/agent/mcorpc/ddl/agent"], [("aggregators", "providers/agent/mcorpc/aggregate")], ["aggregate results"])

prop("C29", "Discovery returns exactly the matching nodes, each once",
     "Every discovery method returns exactly the nodes of its source that satisfy the given collective and filter, without duplicates and without invalid names: broadcast discovery the nodes that replied, flat file and inventory discovery the entries that match, external discovery what the command listed.",
     ["inputs", "schedules"], "every source content, filter and reply order", "Tests use small fixed sources.",
     ["providers/discovery"], [("discovery providers", "providers/discovery/*")], ["discovered node lists"])

prop("C30", "Retry delays and cached lookups stay within their declared bounds",
     "A retry delay for attempt n lies within the jittered bounds of the n-th step of its policy, never exceeds one and a half times the policy's largest step for any n and never crashes, and an interrupted wait returns promptly with an error. "
     "A cached service lookup is answered from the cache only until its fixed age is reached, then resolved anew, errors are never cached and concurrent use is safe; server lists keep their order and content.",
     ["inputs", "schedules", "histories"], "every attempt number, policy, lookup history and interleaving", "Tests check a few attempts and no ageing.",
     ["backoff", "srvcache"], [("policies", "backoff/backoff.go"), ("cache", "srvcache/cache.go")], ["durations and lookups"])

prop("C31", "Machines follow key-value keys and gossip faithfully",
     "After every completed poll of a key-value watcher, or republished message about its key, the data of the machine holds exactly the current value of the key under the configured name (parsed when it is a JSON object or array, narrowed by the query), or nothing once the key is deleted; "
     "the success transition is requested exactly when that changed (or, where so configured, on newer revisions with the same value or every successful read), the failure transition when the bucket or key cannot be read, in which case the data stays as it was. Other keys, messages that were not republished and states the watcher does not watch have no effect, and no interval, bucket or timing crashes the server. "
     "A gossip watcher publishes its payload to its subject once per interval, with the facts and data of the moment, in exactly the states it watches: never silent in them, never twice, whatever order and speed the states changed in, and never once stopped or removed.",
     ["histories", "schedules", "inputs", "faults"], "every history of keys, buckets and machine states, every configuration and interleaving of polls, messages and state changes", "Tests call the poll function against mocks and only parse the properties of gossip watchers.",
     ["aagent/watchers/kvwatcher", "aagent/watchers/gossipwatcher"], [("kv watcher", "aagent/watchers/kvwatcher/kv.go"), ("gossip watcher", "aagent/watchers/gossipwatcher/gossip.go")], ["machine data, transitions and messages"])

prop("C32", "Metrics and switches of machines are reported truthfully",
     "Whatever a metric command last output (JSON or Nagios performance data) is, under its names, values and labels, what HTTP clients, state events, machine data, graphite and the Prometheus text file get, "
     "independent of how many other watchers there are, how often they gather, who reads meanwhile and how odd the names are: the text file is always valid and complete, unusable output or a failing command changes nothing reported, and deleted watchers leave nothing behind. "
     "A switch shows on, off or unknown as the last state of its machine or accepted press said; an accepted press requests exactly its transition once and is answered with what was asked, one in a disabled or unwatched state is refused without effect, unknown ones are refused, and no timing of presses and state changes makes it stop answering. "
     "A watcher that replaced another of the same name stays reachable when the old one ends, and no output or configuration crashes the server.",
     ["inputs", "schedules", "histories"], "every output, name, label, set of watchers and gathering interval, every history and interleaving of presses, state changes and replacements", "Tests gather two fixed outputs once and never write the text file, use HTTP or press a switch.",
     ["aagent/watchers/metricwatcher", "aagent/watchers/httpswitchwatcher", "aagent/http", "aagent/util"], [("metric watcher", "aagent/watchers/metricwatcher/metric.go"), ("prometheus", "aagent/watchers/metricwatcher/prometheus.go"), ("switch", "aagent/watchers/httpswitchwatcher/httpswitch.go"), ("http", "aagent/http/http.go"), ("performance data", "aagent/util/nagios.go")], ["HTTP answers, metrics, files and transitions"])

prop("C33", "What a node reports about itself is true",
     "At every time the inventory, statistics, facts, classes, settings, data sources and machine states a node reports - in replies of its rpcutil and choria_util agents, its status file and its alive events - are what holds at that time: every request counted once as what became of it, only replies and events that were really sent counted, every agent, class, fact and machine present as it is. "
     "A machine transition is made when the criteria name a machine that can make it, on that machine alone, and refused without effect when no machine matches all of them or the one that does cannot make it. "
     "The status file is valid and complete whenever it is read. Every registration plugin's data is published at its intervals, to its destination, once per change; data that could not be published is tried again. "
     "No setting of intervals or files, missing data source or ongoing shutdown crashes or blocks the node.",
     ["inputs", "schedules", "histories"], "every history of requests, agents coming and going, failing replies, changed files and time passing, and every moment at which what is reported is read", "Tests ask single actions once against mocks and never write status, registration or statistics of a running server.",
     ["server", "providers/agent/mcorpc/golang/rpcutil", "providers/agent/mcorpc/golang/choriautil", "providers/data", "statistics", "providers/registration", "server/registration", "lifecycle"], [("statistics and status file", "server/infosource.go, server/stats.go, statistics"), ("rpcutil", "providers/agent/mcorpc/golang/rpcutil"), ("choria_util", "providers/agent/mcorpc/golang/choriautil"), ("data", "providers/data"), ("registration", "server/registration"), ("lifecycle", "lifecycle")], ["replies, status files, events and registration messages"])

prop("C34", "Connections deliver to each subscription, and connect only where they should",
     "Every live subscription of a connection receives every message published to what it subscribed to exactly once, in order and unchanged, whatever others - of the same name too - do on the connection: end, stop reading, reconnect. One member of a group receives each. Ending a subscription, by name or by its context, ends exactly that and always succeeds, nothing published later reaches its reader and nothing of it remains here or at the broker, likewise when the connection is closed. "
     "Messages are published to exactly the subjects their type and targets imply, over federations when configured, and that is announced before each is published. Requests over a real broker with any combination of batches, workers and order of options handle the reply of each node exactly once and leave no connections. "
     "The servers connected to are those configured, else those in DNS by priority, else the documented default, in any valid way of writing them including IPv6; invalid ones are refused and without any no connection is made. DNS answers are repeated only for their time and failures never.",
     ["inputs", "schedules", "histories"], "every history of subscriptions sharing names, subjects and groups, every moment one ends or stops reading, every set of configured and published servers", "Tests of the connector never connect it, tests of the client use mocks and none look at what a broker is left with.",
     ["choria", "srvcache", "client/client", "providers/agent/mcorpc/client"], [("connector", "choria/connection.go"), ("servers", "choria/framework.go, srvcache"), ("client", "client/client, providers/agent/mcorpc/client")], ["messages at a real broker, subscriptions known to it, DNS queries"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            p["statement"] = p["statement"].strip()
            f.write(json.dumps(p) + "\n")
    print(len(P))
