#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []

S = "txstatsd/server/"
M = "txstatsd/metrics/"


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=(), technique=None, note=None, state=()):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text,
        why=why, files=files, mechanism=mechanism, observe=list(observe),
        technique=technique, note=note, state=list(state)))


SEQ = ("stateless model checking of the implementation: exhaustive "
       "enumeration of bounded operation sequences against a reference model")
INT = ("stateless model checking of the implementation: exhaustive "
       "enumeration of operation sequences and of the interleavings of "
       "flushes with messages, against a reference model")
ENV = ("stateless model checking of the implementation under a controlled "
       "reactor: exhaustive enumeration of event sequences and faults")
THR = ("systematic concurrency testing: every interleaving of threads up to "
       "a preemption bound, at statement granularity, under a controlled "
       "scheduler")
RND = ("model checking with the random source as an enumerated environment: "
       "every sequence of draws over a finite grid")
ENU = ("exhaustive enumeration of bounded inputs on the implementation "
       "against a reference model")

prop("C01", "StatsD-compliant counters lose nothing and count nothing twice",
     "With the StatsD-compliant processor, each flush publishes for every "
     "counter name ever seen stats_counts.NAME, the sum of value / sample "
     "rate over exactly the samples received since that counter was last "
     "published, and stats.NAME, that sum per second of the flush interval. "
     "This holds for every flush interval in milliseconds, and samples that "
     "arrive while a flush is still being consumed are in that flush or in "
     "the next, never in both or in neither.",
     ["inputs", "histories", "schedules"],
     "all histories of messages and flushes, every interval, every point of "
     "a flush at which messages arrive or another flush begins",
     "The tests flush one or two counters once at whole intervals; none "
     "delivers messages between the steps of a flush or overlaps flushes.",
     [S + "processor.py"],
     [("accumulate value / rate", S + "processor.py:compose_counter_metric"),
      ("take and reset at flush", S + "processor.py:flush_counter_metrics")],
     ["MessageProcessor.process", "MessageProcessor.flush"], INT)

prop("C02", "StatsD-compliant timers summarise exactly the unpublished samples",
     "With the StatsD-compliant processor, a flush publishes for every timer "
     "with samples since it was last published their count, minimum (lower) "
     "and maximum (upper), and for the flush's percentage P the maximum "
     "(upper_P) and the mean of the samples that remain once the highest "
     "(100-P)% of them, rounded to a whole number but always leaving one, "
     "are set aside. A timer without new samples is not published, and "
     "samples that arrive during a flush are in that flush or in the next.",
     ["inputs", "histories", "schedules"],
     "all sample values, orders and numbers of samples, all percentages, "
     "all points of a flush at which samples arrive",
     "The tests use a handful of samples and the default percentage, and "
     "never deliver samples during a flush.",
     [S + "processor.py"],
     [("sort and cut at the threshold", S + "processor.py:flush_timer_metrics"),
      ("collect", S + "processor.py:compose_timer_metric")],
     ["MessageProcessor.process", "MessageProcessor.flush"], INT)

prop("C03", "StatsD-compliant gauges publish one, the latest, reading each",
     "With the StatsD-compliant processor, every flush publishes for every "
     "gauge name ever seen exactly one stats.gauge.NAME.value, the reading "
     "received last, whether or not a new one came since the flush before. "
     "A reading that arrives during a flush replaces the one before it, then "
     "or in the next flush.",
     ["inputs", "histories", "schedules"],
     "all histories of readings and flushes over several names, all points "
     "of a flush at which readings arrive",
     "The tests set one or two gauges and flush once.",
     [S + "processor.py"],
     [("one entry per name", S + "processor.py:compose_gauge_metric"),
      ("publish all", S + "processor.py:flush_gauge_metrics")],
     ["MessageProcessor.process", "MessageProcessor.flush"], INT)

prop("C04", "Meters publish the running total and the rate since the last flush",
     "A flush publishes for every meter .count, the sum of all its events "
     "ever, and .rate, the sum of its events since it was last published "
     "divided by the seconds since the previous flush (or since its first "
     "event), both to six decimals. When no time has passed, or the clock "
     "went backwards, the meter is left out and its events are kept for the "
     "next flush.",
     ["inputs", "histories", "schedules"],
     "all histories of events, clock steps of any size (fractions, zero, "
     "backwards) and flushes, with either processor",
     "The tests flush a meter at a few fixed whole seconds.",
     [M + "metermetric.py", S + "processor.py", S + "configurableprocessor.py"],
     [("delta and elapsed time", M + "metermetric.py:MeterMetricReporter.report")],
     ["flush of both processors"], INT)

prop("C05", "Extended counters and gauges publish the value received last",
     "With the configurable processor, every flush publishes for every "
     "counter seen [PREFIX.]NAME.count, the last value received truncated to "
     "an integer, and for every gauge seen [PREFIX.]NAME.value, the last "
     "reading, once each and also when nothing new came; the values are "
     "absolute, never added up nor scaled by a sample rate.",
     ["inputs", "histories", "schedules"],
     "all histories of messages and flushes, with and without a prefix",
     "The tests send one value per name and flush once.",
     [S + "configurableprocessor.py", M + "countermetric.py",
      M + "gaugemetric.py"],
     [("latest value", M + "countermetric.py:CounterMetricReporter"),
      ("latest value", M + "gaugemetric.py:GaugeMetricReporter")],
     ["ConfigurableMessageProcessor.flush"], INT)

prop("C06", "Extended timers publish correct statistics of each interval",
     "With the configurable processor, every flush publishes for every timer "
     "seen .count (all samples ever received), and of the non-negative "
     "samples since the previous flush .min, .max, .mean, .stddev (sample "
     "standard deviation), .99percentile, .999percentile (interpolated) and "
     ".rate (their number per second since the previous flush, 0 if no time "
     "has passed), all zero without such samples. Each sample counts in "
     "exactly one interval.",
     ["inputs", "histories", "schedules"],
     "all sequences of samples (up to the size of the reservoir), clock "
     "steps and flushes",
     "The tests look at a few samples, one flush and some of the figures.",
     [S + "configurableprocessor.py", M + "timermetric.py",
      M + "histogrammetric.py"],
     [("statistics", M + "histogrammetric.py:HistogramMetricReporter"),
      ("clear after each report", M + "timermetric.py:TimerMetricReporter.report")],
     ["ConfigurableMessageProcessor.flush"], INT)

prop("C07", "Malformed messages are discarded whole and without a trace",
     "A message that is not NAME:VALUE|TYPE or NAME:VALUE|TYPE|EXTRA, has an "
     "unknown type, has a value that is not a finite number (for the types "
     "c, g, m, ms and sli, \"error\" apart), or, for a StatsD-compliant "
     "counter, a sample rate that is not @ and a positive finite number, "
     "is logged, raises no error and creates no metric. Except for the "
     "server's own figures about messages received, everything published from then on is "
     "as if that message had never arrived; and every well-formed sample "
     "does create its metric.",
     ["inputs", "histories"],
     "all byte strings as messages, in all histories, for every processor, "
     "behind a router and with the metric plugins",
     "The tests try a few dozen hand-picked bad lines, one at a time, and "
     "look at one internal table or at the call of a stub.",
     [S + "processor.py", S + "configurableprocessor.py",
      S + "loggingprocessor.py", S + "router.py", M + "slimetric.py"],
     [("syntax", S + "processor.py:BaseMessageProcessor.process"),
      ("values", S + "processor.py:parse_value"),
      ("plugins", S + "processor.py:process_plugin_metric")],
     ["process, get_metric_names, flush"], ENU)

prop("C08", "Metric names are normalised, and equal names share one metric",
     "For every kind of metric, the name in what is published is the name "
     "received with each run of white space replaced by one underscore, each "
     "run of slashes by one hyphen, and every other character outside "
     "a-z A-Z 0-9 _ - . removed (white space around the message does not "
     "count). Samples whose names become the same are samples of one metric.",
     ["inputs"],
     "all names",
     "The tests normalise three or four names.",
     [S + "processor.py"],
     [("normalisation", S + "processor.py:normalize_key")],
     ["process, get_metric_names, flush"], ENU)

prop("C09", "The server's own figures about each flush are right",
     "Each flush ends with statsd.* figures stamped, like everything else in "
     "it, with the second in which it began: numStats, the number of metrics "
     "flushed, with flush.KIND.count and flush.KIND.duration for counters, "
     "timers, gauges, meters and plugins that add up to it and tell the "
     "milliseconds spent on each kind; and for each type of message "
     "receive.TYPE.count and receive.TYPE.duration, the messages received "
     "and the milliseconds spent on them. Every message of a known type is "
     "accounted for in exactly one flush.",
     ["histories", "schedules"],
     "all histories of messages and flushes, every pace of the consumer and "
     "every point of a flush at which messages arrive",
     "The tests flush once with a fixed sequence of clock readings.",
     [S + "processor.py"],
     [("summary", S + "processor.py:flush_metrics_summary"),
      ("accounting", S + "processor.py:process_message")],
     ["flush of both processors"], INT)

prop("C10", "Every flush interval, all metrics go to carbon, each exactly once",
     "While the service runs, a flush starts once per flush interval (any "
     "number of milliseconds), the first one interval after the start, and "
     "none after it stopped. Everything that flush yields is handed to the "
     "carbon client exactly once, in order, as (path, (timestamp, value)), "
     "the next only once the client is done with the one before, while "
     "messages go on being processed.",
     ["schedules", "histories", "configurations"],
     "all intervals and all orders of reactor events: completion of sends, "
     "messages, timer ticks, stop and restart",
     "The test only checks that the looping call is there; no test drives "
     "the flush loop through time or with a carbon client that takes its time.",
     ["txstatsd/service.py"],
     [("schedule", "txstatsd/service.py:StatsDService"),
      ("cooperative hand-off", "txstatsd/service.py:StatsDService.flushProcessor")],
     ["StatsDService", "carbon_client.sendDatapoint"], ENV)

prop("C11", "A failure while flushing costs at most what was in hand",
     "If handing a metric to carbon fails or a metric plugin fails to flush, "
     "at any point of a flush, the server keeps flushing at every following "
     "interval, every sample that was not published by the failed flush is "
     "published by the next one, except those of the single metric that was "
     "in hand, and nothing is published twice.",
     ["fault_sequences", "histories"],
     "every point of a flush at which the failure strikes, one or more "
     "failures in a row, samples arriving in between",
     "No test makes a flush fail.",
     ["txstatsd/service.py", S + "processor.py"],
     [("one metric taken at a time", S + "processor.py:flush_counter_metrics"),
      ("loop survives", "txstatsd/service.py:StatsDService.flushProcessor")],
     ["StatsDService", "carbon_client.sendDatapoint"], ENV)

prop("C12", "Routing rules are applied in order to every metric",
     "The router gives the processor exactly what the rules make of a "
     "message: each rule, in order, is applied to each metric that the rules "
     "before it left, conditions any, not, metric_type and path_like decide "
     "by the metric's current type and name, and targets drop, rewrite and "
     "set_metric_type (dup keeping the original as well) remove or transform "
     "it. Value and extra fields are unchanged, and what metrics no rule "
     "matches go through as they are.",
     ["programs", "inputs"],
     "all lists of rules and all messages",
     "The tests apply one or two rules to one message each.",
     [S + "router.py"],
     [("rule interpreter", S + "router.py:Router.process_message"),
      ("conditions and targets", S + "router.py:Router.build_*")],
     ["Router.process", "the processor behind it"], SEQ)

prop("C13", "TCP redirects deliver what the connection accepts, and reconnect",
     "A message that a redirect_tcp rule matches is written at once, whole, "
     "in order and ended by CRLF, to the current connection if there is one "
     "that is not paused, and otherwise not at all; it goes on to the next "
     "rule either way. The redirect resumes when the transport asks for it "
     "(and logs how many messages it dropped, in how many seconds) and "
     "connects again, as long "
     "as the service runs, whenever the connection is refused or lost: "
     "within seconds if it was established.",
     ["schedules", "fault_sequences", "histories"],
     "all sequences of connection events (accepted, refused, lost, paused, "
     "resumed), messages, passing time, start and stop",
     "The tests redirect one message over one healthy connection.",
     [S + "router.py"],
     [("back-pressure", S + "router.py:TCPRedirectProtocol"),
      ("reconnection", S + "router.py:TCPRedirectClientFactory")],
     ["what is written to the transport"], ENV)

prop("C14", "UDP redirects forward every matching message as it is then",
     "Every message that a redirect_udp rule matches is sent, in order and "
     "once the destination is resolved and the port open (up to 1000 wait "
     "for that), as one datagram with the name, type, value and extra field "
     "that the rules before it left, and goes on to the next rule as well. "
     "The router is ready once all its redirects are.",
     ["schedules", "histories", "programs"],
     "all orders of resolution, port opening and messages, chains of rules "
     "around the redirect",
     "The tests redirect one message after everything is connected.",
     [S + "router.py", "txstatsd/protocol.py"],
     [("redirect", S + "router.py:Router.build_target_redirect_udp")],
     ["what is written to the UDP port", "Router.ready"], ENV)

prop("C15", "Datagrams and TCP lines reach the processor once, in order",
     "Every datagram, and every CRLF-terminated line of every TCP connection "
     "however the stream is cut into segments, is given to the processor "
     "exactly once and in the order received, a message that fails affecting "
     "no other. A datagram or line equal to the monitor message is answered "
     "with the monitor response, to the one who asked, and is not processed.",
     ["schedules", "inputs", "histories"],
     "all segmentations of the streams, interleavings of connections and "
     "datagrams with turns of the reactor",
     "The tests deliver single whole lines or datagrams.",
     [S + "protocol.py"],
     [("datagrams", S + "protocol.py:StatsDServerProtocol"),
      ("lines", S + "protocol.py:StatsDTCPServerProtocol")],
     ["processor.process", "transport.write"], ENV)

prop("C16", "The Twisted client keeps and sends messages through its lifecycle",
     "Messages written before the host is resolved and the port open wait "
     "(the first 1000 of them) and are sent, in order, as soon as both are; "
     "after that every message is sent at once to the resolved address, in "
     "order, each exactly once. The callback of each message is called once "
     "with the bytes sent, or None if the address or socket failed, and the "
     "connect callback once per resolution.",
     ["schedules", "histories", "fault_sequences"],
     "all orders of resolution, port opening and closing, writes and write "
     "errors",
     "The tests check single transitions with stubbed queue and gateway.",
     ["txstatsd/protocol.py"],
     [("queue until connected", "txstatsd/protocol.py:TwistedStatsDClient.write"),
      ("flush", "txstatsd/protocol.py:TwistedStatsDClient.host_resolved")],
     ["what is written to the UDP port"], ENV)

prop("C17", "Threads can write to the Twisted client while it connects",
     "When several threads write to the client while the reactor thread "
     "resolves the host, opens and closes the port, no message is lost or "
     "sent twice, the messages of each thread are sent in the order it wrote "
     "them, and the socket is only used in the reactor thread; nothing "
     "deadlocks.",
     ["schedules"],
     "all interleavings of writing threads and the reactor thread up to a "
     "preemption bound",
     "All tests run in a single thread.",
     ["txstatsd/protocol.py"],
     [("lock", "txstatsd/protocol.py:TwistedStatsDClient._lock"),
      ("callFromThread", "txstatsd/protocol.py:TransportGateway.write")],
     ["what is written to the UDP port"], THR)

prop("C18", "The plain UDP client never fails its caller and sends each datagram once",
     "Writing to the blocking client never raises on a network error: it "
     "sends the datagram once, unchanged, to the address resolved when the "
     "client was made, and returns the number of bytes sent, or None if "
     "there is no address, no connection or the network failed. The client "
     "can be disconnected and connected again any number of times, leaks no "
     "socket, never blocks, and an address that cannot be resolved is a "
     "ValueError when the client is made.",
     ["fault_sequences", "histories"],
     "all sequences of connect, disconnect and write with every network "
     "error at every call",
     "The tests check a mocked socket in a few single steps.",
     ["txstatsd/client.py"],
     [("fault containment", "txstatsd/client.py:UdpStatsDClient.write")],
     ["socket calls"], ENV)

prop("C19", "The hash ring is stable, complete and independent of order",
     "Which node a key belongs to depends only on the key and the set of "
     "nodes, not on the order or history in which nodes were added and "
     "removed; removing a node moves only that node's keys and adding one "
     "moves keys only to it. The preference list of a key names every node "
     "once, in the order in which they take over as nodes before them are "
     "removed. With the default number of replicas every node gets about its "
     "fair share of the keys.",
     ["histories", "inputs"],
     "all histories of adding and removing nodes, all keys",
     "The consistent hashing tests look at one fixed ring.",
     ["txstatsd/hashing.py"],
     [("ring", "txstatsd/hashing.py:ConsistentHashRing")],
     ["get_node, get_nodes"], SEQ)

prop("C20", "The sharding client sends each metric name to one client, always the same",
     "The consistent hashing client gives each message unchanged to exactly "
     "one of its clients, chosen by the metric name alone as the hash ring has it, so that all "
     "messages of a name go to the same client whatever their value and "
     "type; leaving a client out moves only the names that were its own. "
     "Connecting and disconnecting reaches every client once.",
     ["inputs", "configurations"],
     "all sets and orders of clients, all names and messages",
     "The tests try one set of clients and two names.",
     ["txstatsd/client.py", "txstatsd/hashing.py"],
     [("routing", "txstatsd/client.py:ConsistentHashingClient.write")],
     ["write of the clients"], SEQ)

prop("C21", "The client API sends one well-formed message per call",
     "Each call of the metrics API sends exactly one message, "
     "[NAMESPACE.]NAME:VALUE|TYPE, with |@RATE exactly when a sample rate "
     "below one was given in that very call: increment and decrement send "
     "+value and -value as c, timing milliseconds as ms (measured since the "
     "last reset or timing when no duration is given), gauge g, meter m, "
     "distinct pd, sli and other kinds their value and extra field. What a call sends does "
     "not depend on the kinds of calls made before under the same name.",
     ["histories", "inputs"],
     "all sequences of API calls over several names, kinds, values and "
     "sample rates",
     "The tests make one or two calls on a fresh object.",
     [M + "metrics.py", M + "metric.py", M + "gaugemetric.py",
      M + "metermetric.py", M + "distinctmetric.py"],
     [("one metric object per kind and name", M + "metrics.py:Metrics")],
     ["connection.write"], SEQ)

prop("C22", "Client-side sampling is unbiased and announced",
     "A sample with rate R below one is sent with probability R, "
     "independently of all others, and then carries |@R so that a compliant "
     "server's total is unbiased; with a rate of one or more it is always "
     "sent and carries no rate.",
     ["inputs", "histories"],
     "all random draws, all rates, all kinds of metrics",
     "The tests patch the random source with one or two values.",
     [M + "metric.py"],
     [("sampling", M + "metric.py:Metric.send")],
     ["connection.write"], RND)

prop("C23", "Extended client counters make the server right after any loss",
     "A counter of the extended client reports its running total (increments "
     "minus decrements since it was made or cleared) with every sample, so "
     "that whatever messages are lost or sampled away, after the next one "
     "delivered the configurable server publishes exactly the true total.",
     ["fault_sequences", "histories"],
     "all sequences of increments, decrements and clears over several names, "
     "every subset of lost messages, flushes in between",
     "The tests check single increments on a mock connection.",
     [M + "countermetric.py", M + "extendedmetrics.py",
      S + "configurableprocessor.py"],
     [("running total", M + "countermetric.py:CounterMetric")],
     ["connection.write", "flush"], ENV)

prop("C24", "Service level indicators count each sample against each condition",
     "A flush publishes for each SLI name the number of samples since the "
     "last flush (count), of errors (error), and for every condition "
     "configured for that name the number of non-error samples that satisfy "
     "it (count_LABEL): below and above compare with value + slope * size "
     "(size 1 if not given), between with both ends excluded. The conditions "
     "of a name are those of all rules whose pattern matches its path.",
     ["inputs", "histories", "configurations"],
     "all rules, thresholds, samples at, around and on the thresholds, "
     "errors, sizes, and sequences of samples and flushes",
     "The tests check a few values against one condition each.",
     [M + "slimetric.py", "twisted/plugins/sli_plugin.py", S + "processor.py"],
     [("conditions", M + "slimetric.py"),
      ("rules", "twisted/plugins/sli_plugin.py:SLIMetricFactory")],
     ["flush of both processors"], SEQ)

prop("C25", "Distinct counts over sliding windows depend on what is in the window",
     "The estimate for each window (all time, last minute, hour and day) is "
     "the same as that of a fresh counter given only the items whose last "
     "occurrence is within that window, whatever came before, in whatever "
     "order and however often; so repetitions and order never change it, it "
     "never falls when items are added, and never rises when time passes. "
     "From eight items on it is near their number: in the root mean square "
     "over the hash tables, it is off by less than a factor of one and a "
     "half.",
     ["histories", "inputs"],
     "all sequences of items and clock steps, at and around the ends of the "
     "windows",
     "The tests check rough estimates of large samples, with one expiry.",
     [M + "distinctmetric.py"],
     [("newest time per bucket", M + "distinctmetric.py:SlidingDistinctCounter")],
     ["flush of the distinct metric"], SEQ)

prop("C26", "Histograms compute exact statistics in one pass",
     "For every sequence of values a histogram's count, minimum, maximum, "
     "mean and (sample) standard deviation are those of the values, its "
     "percentiles are the interpolated order statistics of its sample, never "
     "outside it and never decreasing, and its bins hold every value of the "
     "sample exactly once, in ranges of equal width from the minimum to the "
     "maximum. Clearing makes it as good as new.",
     ["inputs", "histories"],
     "all sequences of values (equal, negative, unsorted) and clears",
     "The tests check a few fixed sequences.",
     [M + "histogrammetric.py", M + "timermetric.py"],
     [("running variance", M + "histogrammetric.py:update_variance"),
      ("percentiles", M + "histogrammetric.py:percentiles"),
      ("bins", M + "histogrammetric.py:histogram")],
     ["HistogramMetricReporter", "TimerMetricReporter"], SEQ)

prop("C27", "The uniform sample holds each subset with equal probability",
     "A uniform sample of size k holds all of the first k values, in order, "
     "and after n > k values k of them, such that over the random draws "
     "every k-subset is equally likely; its size never exceeds k, and "
     "clearing it forgets everything.",
     ["inputs", "histories"],
     "all sequences of random draws, all sizes",
     "The tests fill one sample once with real randomness.",
     ["txstatsd/stats/uniformsample.py"],
     [("Algorithm R", "txstatsd/stats/uniformsample.py:UniformSample.update")],
     ["get_values, size"], RND)

prop("C28", "The decaying sample favours recent values, at any age",
     "A decaying sample of size k holds min(k, n) of the n values given, "
     "those with the highest priorities, a value's priority being its age "
     "weight exp(alpha * time) over a random number in (0, 1] (alpha is "
     "0.015 per second in the histograms); rescaling after any interval, however long, never changes which values those "
     "are. Clearing it forgets everything.",
     ["inputs", "histories"],
     "all sequences of updates with enumerated random draws and clock steps "
     "across several rescalings, with a clear at any point",
     "The tests use one sequence of updates and real randomness.",
     ["txstatsd/stats/exponentiallydecayingsample.py"],
     [("priorities", "txstatsd/stats/exponentiallydecayingsample.py:update"),
      ("rescaling", "txstatsd/stats/exponentiallydecayingsample.py:rescale")],
     ["get_values, size"], RND)

prop("C29", "Moving averages follow the exponential decay exactly",
     "The rate of a moving average is, at its first tick, the events so far "
     "over the interval, and moves at each later tick by alpha times the "
     "difference between the rate of the last interval and itself; events "
     "count in exactly one tick, and the 1, 5 and 15 minute averages decay "
     "like UNIX load averages with 5 second ticks.",
     ["histories"],
     "all sequences of updates and ticks",
     "The tests check one update followed by ticks.",
     ["txstatsd/stats/ewma.py"],
     [("recurrence", "txstatsd/stats/ewma.py:Ewma.tick")],
     ["Ewma.rate"], SEQ)

prop("C30", "Scheduled reports run at their interval and survive failures",
     "Every function scheduled with the reporting service is called once "
     "per its own interval while the service runs, also when it or another "
     "fails or is still waiting for its result (then it is not called "
     "again before it is done), and never after the service stopped. Each "
     "value it returns is reported exactly once, under its name, prefixed by "
     "the instance name if there is one.",
     ["schedules", "fault_sequences", "histories"],
     "all sequences of schedule, start, stop, passing time, results, "
     "failures and late results over several functions",
     "The tests run one function for a few ticks.",
     ["txstatsd/report.py"],
     [("looping calls", "txstatsd/report.py:ReportingService"),
      ("failures logged", "txstatsd/report.py:ReportingService.wrapped")],
     ["the report function"], ENV)

prop("C31", "The reactor inspector reports how late the reactor is",
     "At the end of every cycle the inspector reports one delay: the time "
     "the reactor took to answer the oldest request not accounted for yet, "
     "or, if none was answered, how long the oldest one has been pending "
     "(then it logs the stack of every other thread, telling which is the "
     "reactor's); after a late answer all answers pending are dropped. As a service, it "
     "reports only in the reactor thread, and stops when the service does.",
     ["schedules", "histories"],
     "all sequences of answered, late and unanswered requests",
     "The tests run a few cycles with one pattern of answers each.",
     ["txstatsd/report.py"],
     [("cycle", "txstatsd/report.py:ReactorInspector.run"),
      ("reactor thread", "txstatsd/report.py:ReactorInspectorService")],
     ["metrics.gauge"], ENV)

prop("C32", "The HTTP status tells whether flushing keeps up",
     "GET /status answers 200 and OK exactly when the seconds spent on the "
     "last flush and on processing messages before it are at most 70% of the "
     "flush interval, and 500 and ERROR otherwise, with these figures as "
     "JSON; /list_metrics lists every metric name seen, once each; "
     "/metrics/NAME serves the histogram of an extended timer and is "
     "404 for everything else.",
     ["inputs", "histories", "configurations"],
     "all flush and processing times relative to all intervals, all "
     "histories of messages, both processors",
     "The tests use stub processors with three fixed durations.",
     [S + "httpinfo.py", S + "processor.py", "txstatsd/service.py"],
     [("status", S + "httpinfo.py:Status"),
      ("names", S + "processor.py:get_metric_names")],
     ["HTTP resources"], SEQ)

prop("C33", "Command line beats configuration file beats default",
     "Each option has the value given on the command line (in its long or "
     "short form, in any position) if it is there, otherwise the one in the "
     "configuration file, otherwise its default, with the same type "
     "whichever way it came; options that can be repeated (the carbon "
     "caches) collect all values, from the command line or from the "
     "carbon-cache sections.",
     ["configurations"],
     "all options, forms, and combinations of sources, pairs of options",
     "The tests override one option in its long form.",
     ["txstatsd/service.py"],
     [("overridden options", "txstatsd/service.py:OptionsGlue")],
     ["StatsDOptions"], ENU)

prop("C34", "The configured service is wired as the options say",
     "For every combination of options the service listens on the UDP port, "
     "and on the TCP and HTTP ports exactly if given, flushes at the "
     "configured interval with the configured processor, prefix, plugins and "
     "routing rules, and connects to every carbon cache configured (host, "
     "port and name kept together, 127.0.0.1:2004 by default); a sample sent "
     "to it comes out at carbon under the name that the mode prescribes.",
     ["configurations"],
     "all combinations of compliance, dump mode, prefix, instance name, "
     "ports, routing, reports, and up to three carbon caches",
     "The tests build a handful of configurations and look at attributes.",
     ["txstatsd/service.py"],
     [("wiring", "txstatsd/service.py:createService")],
     ["reactor.listenUDP/listenTCP/connectTCP", "datagrams in, carbon out"],
     ENV)

prop("C35", "System and process statistics are read correctly",
     "For every well-formed /proc/meminfo, loadavg and net/dev the report "
     "has exactly the figures in it, in bytes where the file tells a unit; "
     "the process report has what the process object tells, leaving out what "
     "it cannot tell; and the counters reported as differences are, for "
     "every name present in two readings in a row, the difference of "
     "the two, whatever names come and go or readings fail.",
     ["inputs", "histories", "fault_sequences"],
     "all combinations of lines, units, devices and values; all sequences of "
     "readings with names coming and going and failures",
     "The tests parse one sample of each file and take one difference.",
     ["txstatsd/process.py"],
     [("parsers", "txstatsd/process.py:parse_*"),
      ("differences", "txstatsd/process.py:report_counters")],
     ["the dictionaries returned"], ENU)

prop("C36", "Dump mode logs everything and changes nothing",
     "The logging processor publishes, for every history of messages and "
     "flushes, exactly what the configurable processor with the same "
     "settings publishes, logs one \"In:\" line per well-formed message in "
     "the order received and one \"Out:\" line per figure published, in "
     "the order published.",
     ["histories", "inputs"],
     "all histories of messages and flushes",
     "The tests log a single message and a single flush.",
     [S + "loggingprocessor.py"],
     [("wrapping", S + "loggingprocessor.py:LoggingMessageProcessor")],
     ["flush", "logger.info"], SEQ)

prop("C37", "From client call to carbon, figures arrive complete and correct",
     "For every sequence of client API calls whose datagrams are delivered, "
     "the paths and values that the running service hands to carbon over the "
     "following flush intervals add up to exactly what the calls reported, "
     "whatever the order in which datagrams, TCP lines, reactor turns and "
     "flushes interleave, and with sampled counters scaled back.",
     ["histories", "schedules"],
     "all sequences of API calls with any interleaving of deliveries and "
     "flush steps",
     "No test connects a client to a service to a carbon stub.",
     ["txstatsd/service.py", "txstatsd/client.py", M + "metrics.py",
      S + "protocol.py", S + "processor.py"],
     [("end to end", "txstatsd/service.py:createService")],
     ["API calls in, carbon out"], ENV)

prop("C38", "Stopping and starting again leaves nothing behind",
     "Stopping the service that was started with any configuration stops "
     "every timer, listener and connection it started, also when it is "
     "stopped in the middle of a flush, before a host is resolved or a "
     "connection made; and, apart from carbon's own client, which forgets "
     "its destinations when it is stopped, starting it again works as at "
     "first, with nothing received before the stop lost.",
     ["configurations", "schedules", "fault_sequences"],
     "all configurations, every point of the start-up and of a flush at "
     "which the service is stopped, restarts",
     "The tests start and stop single parts once.",
     ["txstatsd/service.py", "txstatsd/report.py", S + "router.py"],
     [("service tree", "txstatsd/service.py:createService"),
      ("stop", "txstatsd/service.py:StatsDService.stopService")],
     ["reactor: delayed calls, ports, connectors"], ENV)


def main():
    from_disk = set(
        name[2:-3].upper() for name in os.listdir(os.path.join(HERE, "mc"))
        if name.startswith("p_c") and name.endswith(".py"))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w}
                                  for n, w in p["mechanism"]],
                    "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, missing = [], list(NOT_APPLICABLE)
    for p in PROPS:
        if p["id"] in [n["property"] for n in NOT_APPLICABLE]:
            continue
        if p["id"] not in from_disk:
            missing.append({"property": p["id"],
                            "reason": "its check is not built yet"})
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "model_checking",
            "level_note": p["note"] or (
                "Every execution within the bounds reported in the evidence "
                "was run on the real code (no sampling); beyond the "
                "alphabets and bounds it says nothing.  Trusts the "
                "reference model in mc/, and the stand-ins for clock, "
                "randomness and reactor.")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "python3 check.py --self-test",
            "checks": checks, "not_applicable": missing,
            "notes": "No hooks in /repo: the checks use seams of Twisted and "
                     "of the standard library.  See DESIGN.md."},
            f, indent=1)
        f.write("\n")


main()
