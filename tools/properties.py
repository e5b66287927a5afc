"""The property list; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
P = []
def p(id, title, statement, over, q, why, files, mech, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, na=na))

p("C01", "Parsing one line of the wire protocol is total, exact and memory safe",
  "Every line of the native protocol either yields exactly the metric type, optional argument, name, tags and value that were written (characters outside the allowed set replaced by an underscore), or is rejected with an explanation and changes no meter. The parser never reads or writes outside the received text, whatever the bytes are.",
  ["inputs"], "all byte strings up to the length bound, including truncated and malformed lines",
  "Tests parse a few dozen hand-written lines; malformed and adversarial text is unbounded and a read past the end is invisible to them.",
  ["server/spectatord.cc"], [("line parser", "server/spectatord.cc get_measurement, Server::parse_line"), ("character replacement", "spectator/string_pool.cc, tools/gen_valid_chars.cc")])
p("C02", "A datagram of several lines is processed line by line, each exactly once",
  "A datagram holding several lines has the same effect as the lines sent one by one: every non-empty line is processed exactly once, in order, whatever the other lines hold, and a bad line does not disturb its neighbours. The counts of parsed and rejected metrics reported by the daemon about itself grow by exactly the number of good and bad lines.",
  ["inputs"], "all datagrams up to the length bound, with line breaks at any position",
  "Tests send two or three well-formed multi-line messages.",
  ["server/spectatord.cc"], [("line splitting", "server/spectatord.cc Server::parse, Server::parse_lines"), ("self metrics", "server/spectatord.cc Server::Server, upkeep")])
p("C03", "Statsd input is parsed exactly and safely",
  "Every statsd line either updates the meter its type names with the written value, scaled by its sampling rate, and with the written tags, or is rejected without changing a meter. No input makes the parser read outside the text, loop without bound, or update a meter a number of times unrelated to the sampling rate.",
  ["inputs"], "all byte strings up to the length bound",
  "Tests cover a handful of well-formed statsd lines; sampling rates and malformed sections are unbounded.",
  ["server/spectatord.cc"], [("statsd parser", "server/spectatord.cc parse_statsd, parse_statsd_line")])
p("C04", "Each metric type updates the right meter with the right value",
  "A valid line changes exactly the meter of the type its letter names, identified by its name and tags, with its value interpreted in that type's unit: seconds for timers, milliseconds for the timestamps of sampled counters, full 64-bit integers for unsigned counters, an optional time to live for gauges. No other meter changes.",
  ["inputs"], "every type letter, optional argument and value within the bounds, from one line to the following report",
  "Tests check one or two values per type; the unit conversions and numeric ranges are not covered.",
  ["server/spectatord.cc", "spectator/registry.h"], [("type dispatch", "server/spectatord.cc update_metric"), ("meter lookup", "spectator/registry.h")])
p("C05", "Interned strings are equal exactly when their text is equal",
  "Interning a text gives a handle that reads back as that text with every disallowed character replaced by an underscore, and nothing else changed. Two handles compare equal exactly when their sanitized texts are equal, for any texts and any order of interning.",
  ["inputs", "histories"], "all sequences of strings of bounded number and length",
  "Tests intern a handful of fixed strings; equality must hold for every pair, including those that collide.",
  ["spectator/string_pool.cc", "spectator/string_intern.h"], [("pool", "spectator/string_pool.cc StringPool::Intern"), ("valid characters", "tools/gen_valid_chars.cc")])
p("C06", "A tag set behaves as a finite map in every history of changes",
  "A tag set is a map from key to value: adding a pair makes the value readable under its key, replaces an earlier value of that key and leaves the other pairs alone, through every growth. Copies and moves are faithful and independent and leak nothing, equality depends only on the pairs and not on their order, and equal sets hash alike.",
  ["inputs", "histories"], "all histories of additions, copies, moves and assignments up to the bounds, with any keys",
  "Tests build small fixed sets; growth, self moves and key collisions depend on the history.",
  ["spectator/tags.h"], [("tag set", "spectator/tags.h Tags"), ("hash", "spectator/tags.h Tags::hash")])
p("C07", "A meter id is its name and tags, and derived ids do not disturb it",
  "Two ids are equal exactly when their names and tag sets are equal, in any tag order, and equal ids hash alike. Deriving an id with a tag or statistic gives the tags of the original with that one added or replaced, the default statistic only where none is present, and leaves the original unchanged.",
  ["inputs"], "all names and tag sets within the bounds",
  "Tests compare a few fixed ids.",
  ["spectator/id.h"], [("id", "spectator/id.h Id"), ("statistics", "spectator/id.h Id::WithStat, Id::WithDefaultStat")])
p("C08", "Percentile buckets partition the whole range and percentile meters use them",
  "Every non-negative 64-bit amount falls into exactly one bucket, whose bounds enclose it, and a larger amount never falls into a smaller bucket. A percentile timer or distribution counts each accepted recording, clamped to its configured range, once in the bucket of the clamped amount and once in its underlying aggregates, and estimates percentiles within the bucket that contains them.",
  ["inputs"], "all 64-bit amounts; all ranges",
  "Tests sample amounts at random; the bucket boundaries are where arithmetic goes wrong.",
  ["spectator/percentile_buckets.cc", "spectator/percentile_timer.h", "spectator/percentile_distribution_summary.h"], [("bucket index", "spectator/percentile_buckets.cc PercentileBucketIndexOf"), ("bucket meters", "spectator/percentile_timer.h, spectator/percentile_distribution_summary.h"), ("generated tables", "tools/gen_perc_bucket_values.cc, tools/gen_perc_bucket_tags.cc")])
p("C09", "A counter reports every increment exactly once",
  "The sum of everything a counter has reported plus what is pending equals the sum of the accepted increments: negative or not-a-number increments have no effect, and nothing is lost or reported twice. This holds for any interleaving of increments and measurements by several threads.",
  ["inputs", "schedules", "histories"], "all increments (any 64-bit pattern) and all interleavings within the thread, operation and preemption bounds",
  "Tests are single threaded with fixed amounts.",
  ["spectator/counter.cc", "spectator/atomicnumber.h"], [("counter", "spectator/counter.cc"), ("atomic addition", "spectator/atomicnumber.h add_double")])
p("C10", "Timers and distribution summaries report exactly what was recorded",
  "Each report of a timer or distribution summary carries the count, total, total of squares and maximum of exactly the recordings since the last report, each under its own statistic and unit, and nothing at all when there were none. Negative recordings have no effect, and with several threads every recording enters each of the aggregates exactly once.",
  ["inputs", "schedules", "histories"], "all amounts and durations and all interleavings within the bounds",
  "Tests record two or three fixed amounts from one thread.",
  ["spectator/timer.cc", "spectator/dist_summary.cc", "spectator/atomicnumber.h"], [("timer", "spectator/timer.cc"), ("distribution summary", "spectator/dist_summary.cc"), ("atomic maximum", "spectator/atomicnumber.h update_max")])
p("C11", "Monotonic counters report exactly the increases between reports",
  "A monotonic counter reports the positive difference between the value at this report and the value at the previous one, nothing without a baseline or without an increase; the unsigned one counts modulo 2^64 and reports an implausibly large step as zero; the sampled one reports the increase per second between the samples. An increase is neither lost nor reported twice, whatever the interleaving of updates and reports.",
  ["inputs", "schedules", "histories"], "all values and all histories and interleavings within the bounds",
  "Tests use short fixed sequences from one thread.",
  ["spectator/monotonic_counter.cc", "spectator/monotonic_counter_uint.cc", "spectator/monotonic_sampled.cc"], [("monotonic counter", "spectator/monotonic_counter.cc"), ("unsigned monotonic counter", "spectator/monotonic_counter_uint.cc"), ("sampled counter", "spectator/monotonic_sampled.cc")])
p("C12", "Gauges report the right value for the right time",
  "A gauge reports its last value until its time to live (never less than five seconds) has passed since its last update, then at most once more. A maximum gauge reports the largest value since its last report and an age gauge the seconds since the last success, each under its statistic and exactly when it has something to report.",
  ["inputs", "schedules", "histories"], "all values, times to live and clock advances, in all histories and interleavings within the bounds",
  "Tests use one or two values and never let a gauge live up to its limit exactly.",
  ["spectator/gauge.cc", "spectator/max_gauge.cc", "spectator/age_gauge.h"], [("gauge", "spectator/gauge.cc"), ("maximum gauge", "spectator/max_gauge.cc"), ("age gauge", "spectator/age_gauge.h")])
p("C13", "The registry keeps one meter per id and expires exactly the idle ones",
  "Asking the registry twice for the same type and id gives the same meter, distinct ids give distinct meters, and a report contains exactly what the registered meters have to report. Meters idle for longer than the configured time disappear, no others do, age gauges stay until deleted, their number never exceeds the limit, and deleting removes exactly the named ones.",
  ["inputs", "histories"], "all histories of requests, updates, clock advances, expiry and deletions within the bounds",
  "Tests exercise single expiries with fixed ids.",
  ["spectator/registry.h", "spectator/registry.cc"], [("meter maps", "spectator/registry.h meter_map, all_meters"), ("measurement and expiry", "spectator/registry.cc Registry::Measurements, removed_expired_meters")])
p("C14", "Concurrent use of registry, string pool and caches is free of races and losses",
  "Threads may look up, update, measure, expire and intern at the same time without a data race or deadlock. Two threads asking for the same id or text at the same time get the same meter or handle, and updates made through it are not lost.",
  ["schedules"], "all interleavings within the thread, operation and preemption bounds",
  "Tests of the registry and pool are single threaded.",
  ["spectator/registry.h", "spectator/string_pool.cc", "server/expiring_cache.h"], [("registry locking", "spectator/registry.h meter_map"), ("pool locking", "spectator/string_pool.cc"), ("cache locking", "server/expiring_cache.h")])
p("C15", "Payload encoding is valid and decodes to what was written",
  "The binary payload encoding of any array length, integer, floating point number or text decodes, by the format's definition, to exactly the value written. This holds for every value the publisher can pass.",
  ["inputs"], "all 31-bit integers, all 64-bit floating point patterns, all ASCII texts up to the bound",
  "Tests encode one small document.",
  ["spectator/smile.cc", "spectator/smile.h"], [("encoder", "spectator/smile.cc SmilePayload::Append, SmilePayload::Init")])
p("C16", "Each batch sent to the backend describes exactly its measurements",
  "Every measurement worth sending (positive, or any non-NaN gauge) appears exactly once in the payloads, with its value, its operation (addition for counts, totals; maximum otherwise) and exactly its tags plus name and the common tags, through references into a table that holds each text once. Batches never exceed the configured size, and the numbers of sent, dropped and invalid measurements accounted for match the backend's answers.",
  ["inputs", "fault_sequences"], "all measurement lists within the bounds and all backend answers of the modelled kinds",
  "The existing publisher test cannot be built here and uses one fixed list.",
  ["spectator/publisher.h"], [("payload", "spectator/publisher.h measurements_to_json, build_str_table, append_measurement"), ("batching and answers", "spectator/publisher.h send_metrics, handle_aggr_response")])
p("C17", "Compression is transparent and never writes out of bounds",
  "Whatever pieces are appended to a payload buffer, and however its chunks fall, the result decompresses to exactly the appended bytes in order, and a buffer is as new after a reset. One-shot compression and decompression are inverse to each other and report an error rather than writing past their output.",
  ["inputs", "histories"], "all piece lengths and chunk sizes within the bounds, relative to a model of the compression library",
  "Tests append a handful of pieces with default sizes.",
  ["spectator/compressed_buffer.cc", "spectator/gzip.cc"], [("streaming buffer", "spectator/compressed_buffer.cc"), ("one-shot", "spectator/gzip.cc")])
p("C18", "HTTP requests are retried exactly when they should be and always accounted for",
  "A request is retried only on retryable outcomes, at most the allowed number of times, and its final outcome is returned to the caller. Every attempt is recorded once, with tags that tell its attempt number, whether it was the last, its result and status.",
  ["fault_sequences", "inputs"], "all sequences of transfer results and status codes up to the retry limit",
  "The existing client tests need a live server and cannot be built here.",
  ["spectator/http_client.cc"], [("retry", "spectator/http_client.cc HttpClient::perform"), ("attempt log", "spectator/log_entry.h")])
p("C19", "The meter cache returns the right meter and forgets only idle entries",
  "Looking up an id in the cache gives the meter that was created for that id, creating it at most once while it is cached. Expiry removes exactly the entries not used for the expiry time and reports the numbers correctly.",
  ["inputs", "histories"], "all histories of look-ups, clock advances and expiries within the bounds",
  "There is no test of the cache.",
  ["server/expiring_cache.h"], [("cache", "server/expiring_cache.h")])
p("C20", "Kernel statistics files are read safely and exactly",
  "From any contents of the kernel's files the daemon reads the configured maximum buffer size, and of the line of its own port the queue length and drop count, and ignores everything else. No contents make it read or write outside its buffers.",
  ["inputs"], "all file contents up to the bounds",
  "Tests read one well-formed sample of each file.",
  ["server/proc_utils.cc"], [("buffer size", "server/proc_utils.cc max_buffer_size"), ("UDP statistics", "server/proc_utils.cc udp_info")])
p("C21", "Receiving a datagram of any size is memory safe and passes on exactly its bytes",
  "Every datagram received over UDP or the local socket, of any length up to the receive buffer and with any receive error, is handed to the parser as exactly its bytes once and followed by the next receive. Nothing is written outside the receive buffer.",
  ["inputs", "fault_sequences"], "all datagram lengths and error results",
  "There is no test of the receive loops.",
  ["server/udp_server.cc", "server/local_server.cc"], [("UDP receive", "server/udp_server.cc"), ("local socket receive", "server/local_server.cc")])
p("C22", "The endpoint tag of a URL is its path",
  "The path taken from a URL is the part between the authority and the query, a slash when there is none, and the input itself when it has no scheme. It never depends on the query, and no input is read out of bounds.",
  ["inputs"], "all URLs up to the length bound",
  "The test has a handful of fixed URLs.",
  ["spectator/strings.cc"], [("path", "spectator/strings.cc PathFromUrl")])
p("C23", "Administrative requests change exactly what they name",
  "An administrative request deletes exactly the gauges or age gauges it names, changes exactly the named ones of the allowed common tags, and answers with the state it describes. A request that is malformed or addressed elsewhere changes nothing and is answered with an error.",
  ["inputs"], "all request methods, paths and bodies of the modelled kinds within the bounds",
  "The existing admin test sends a dozen fixed requests (and cannot be built here).",
  ["admin/admin_server.cc"], [("routes", "admin/admin_server.cc")])

p("C24", "Stopping ends the background work at once and starting begins it again",
  "Once stop has returned, no background thread of the publisher, the registry's expiry or the daemon's upkeep runs any more, and stop returns without waiting for an interval to elapse, whatever the threads were doing when it was called. Stopping twice is harmless. A registry started again after a stop expires and publishes again.",
  ["interleavings"], "all schedules of the background threads and the stopping thread within the preemption bound, for stops before, during and after rounds of work",
  "Tests start and stop once, between rounds of work.",
  ["spectator/publisher.h", "spectator/registry.cc", "server/spectatord.cc"], [("publisher", "spectator/publisher.h Start, Stop, sender"), ("expiry", "spectator/registry.cc Registry::Start, Stop, expirer"), ("upkeep", "server/spectatord.cc Server::Start, Stop, upkeep")])
p("C25", "The daemon's metrics about itself are exact and never stop being reported",
  "In every round of the upkeep the daemon reports the size and expiry of its pool and caches, its network queue and drop figures, exactly as they are, and the registry reports its own size with each measurement. These reports go on however much time lies between the rounds, and are not made when status metrics are switched off.",
  ["histories", "inputs"], "all time steps between rounds, and kernel figures, within the bounds",
  "There is no test of the upkeep.",
  ["server/spectatord.cc", "spectator/registry.cc"], [("upkeep", "server/spectatord.cc Server::upkeep, update_network_metrics"), ("registry size", "spectator/registry.cc Registry::Measurements")])

P.sort(key=lambda x: x["id"])
