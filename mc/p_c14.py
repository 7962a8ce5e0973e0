"""Redirection over UDP, for every order of what it depends on."""
from core import Case
import p_c12
import seams
from fakereactor import reactor

ASSUMPTIONS = [
    "the port, the resolver and the socket are fakes with Twisted's "
    "interface; the service is only started again once it has stopped",
    "what cannot wait because 1000 messages do already is lost"]

HOST = "stats.example.com"
ADDRESS = "192.0.2.9"


def build(rules):
    from twisted.application.service import MultiService
    from txstatsd.server.router import Router
    seams.start_log()
    reactor.reset()
    recorder = p_c12.Recorder.build()
    service = MultiService()
    router = Router(recorder, "\n".join("%s => %s" % r for r in rules),
                    service)
    ready = []
    router.ready.addCallback(ready.append)
    return router, recorder, service, ready


def passed(rules, kind, key):
    """(what is redirected, by rule number; what is left at the end)."""
    metrics, sent = [(kind, key)], {}
    for number, rule in enumerate(rules):
        if rule[1].startswith("redirect"):
            sent[number] = [m for m in metrics if p_c12.holds(rule[0], *m)]
        metrics = [r for m in metrics for r in p_c12.interpret([rule], *m)]
    return sent, metrics


def text(kind, key, value, extra):
    return "%s:%s|%s%s" % (key, value, kind, extra)


def events(host, before, after, depth, fill=0):
    """Start, stop, resolution, messages and turns in every order."""
    rules = before + [("path_like a*", "redirect_udp %s 9999" % host)] + after

    def body(x):
        router, recorder, service, ready = build(rules)
        resolved = host != HOST
        opened = running = failed = stopping = False
        sent, queue, processed = [], [], []
        number = 0

        def message(key):
            kind, extra = [("c", "|@0.5"), ("g", "")][number % 2]
            router.process(text(kind, key, number, extra))
            redirected, left = passed(rules, kind, key)
            for k, n in redirected[len(before)]:
                datagram = text(k, n, number, extra)
                if resolved and opened:
                    sent.append(datagram)
                elif len(queue) < 1000:
                    queue.append(datagram)
            processed.extend(text(k, n, number, extra) for k, n in left)

        for _ in range(fill):
            number += 1
            message("a%d" % number)
        for _ in range(depth):
            moves = ["message", "other"]
            if reactor.threadcalls or reactor.due():
                moves.append("turn")
            if not running and not stopping:
                moves.append("start")
            elif running:
                moves.append("stop")
            if not resolved and not failed:
                moves += ["resolve", "fail"]
            move = x.pick(moves)
            x.op(move)
            if move in ("message", "other"):
                number += 1
                message("%s%d" % ("a" if move == "message" else "b", number))
            elif move == "turn":
                reactor.turn()
                if stopping:
                    stopping = opened = False
            elif move == "start":
                service.startService()
                opened = running = True
            elif move == "stop":
                service.stopService()
                running, stopping = False, True
            elif move == "resolve":
                x.equal([HOST], [name for name, d in reactor.resolutions],
                        "names to resolve")
                reactor.resolutions[0][1].callback(ADDRESS)
                resolved = True
            elif move == "fail":
                from twisted.internet import error
                reactor.resolutions[0][1].errback(error.DNSLookupError())
                failed = True
            if resolved and opened:
                sent.extend(queue)
                queue[:] = []
            x.state((resolved, opened, running, failed, len(queue),
                     len(reactor.threadcalls), number - len(sent)))
            x.equal(int(resolved), len(ready), "ready")
            got = [d for p in reactor.udp for d, a in p.written]
            x.equal(sent[:len(got)], got, "datagrams sent")
        reactor.settle()
        got = [d for p in reactor.udp for d, a in p.written]
        x.equal(sent, got, "datagrams sent at last")
        x.equal(processed, [g[4] for g in recorder.got], "what is processed")
        for port in reactor.udp:
            for d, address in port.written:
                x.equal((ADDRESS if host == HOST else host, 9999), address,
                        "where it is sent")
        x.equal([], reactor.errors, "errors in the reactor")
        x.outcome((len(sent), number, resolved, opened))
    return body


def chains(x):
    """Each redirect sends what the rules before it left."""
    before = [x.pick([("path_like b*", "drop"), ("any", r"rewrite (a) x.\1"),
                      ("metric_type c", "set_metric_type m dup"),
                      ("not path_like *b", "rewrite a ab dup")])
              for _ in range(x.choose(3))]
    middle = [(x.pick(["any", "path_like a*", "metric_type c",
                       "not metric_type c m"]),
               "redirect_udp 192.0.2.9 9999")]
    after = [x.pick([("any", "drop"), ("any", "redirect_udp 192.0.2.10 9998"),
                     ("metric_type c m", "rewrite a q dup"),
                     ("path_like x*", "redirect_udp 192.0.2.10 9998")])
             for _ in range(x.choose(3))]
    rules = before + middle + after
    router, recorder, service, ready = build(rules)
    service.startService()
    redirects = [r[1] for r in rules if r[1].startswith("redirect")]
    x.equal(len(redirects), len(reactor.udp), "open ports")
    expected = dict((r, []) for r in redirects)
    left = []
    for key in ("a", "ab", "b", "x"):
        for kind in ("c", "g"):
            router.process("%s:1|%s|@0.5" % (key, kind))
            x.op((key, kind))
            sent, metrics = passed(rules, kind, key)
            for number in sent:
                expected[rules[number][1]].extend(
                    text(k, n, 1, "|@0.5") for k, n in sent[number])
            left.extend(text(k, n, 1, "|@0.5") for k, n in metrics)
    reactor.settle()
    for target in sorted(expected):
        host, port = target.split()[1:]
        got = [d for p in reactor.udp for d, a in p.written
               if a == (host, int(port))]
        if redirects.count(target) == 1:
            x.equal(expected[target], got, "sent by %r" % (rules,))
        else:
            x.equal(sorted(expected[target]), sorted(got),
                    "sent by %r" % (rules,))
    x.equal(left, [g[4] for g in recorder.got], "processed, by %r" % (rules,))
    x.equal([], reactor.errors, "errors in the reactor")
    x.equal(1, len(ready), "ready")
    x.state((tuple(rules),))
    x.outcome(tuple(left))


def readiness(x):
    """Ready once all the redirects are, whatever the order."""
    kinds = [x.pick(["udp", "tcp", "ip"]) for _ in range(x.choose(3) + 1)]
    rules = []
    for number, kind in enumerate(kinds):
        rules.append(("any", "redirect_%s %s %d" % (
            "tcp" if kind == "tcp" else "udp",
            {"udp": "h%d.example.com", "tcp": "192.0.2.%d",
             "ip": "192.0.2.%d"}[kind] % number, 7000 + number)))
    router, recorder, service, ready = build(rules)
    waiting = [n for n, kind in enumerate(kinds) if kind != "ip"]
    started = False
    while waiting or not started:
        x.equal([], ready if waiting else [], "ready before all are")
        which = x.choose((len(waiting) if started else len(
            [n for n in waiting if kinds[n] == "udp"])) + (not started))
        if not started and which == 0:
            service.startService()
            started = True
            x.op("start")
            continue
        if not started:
            n = [n for n in waiting if kinds[n] == "udp"][which - 1]
        else:
            n = waiting[which]
        waiting.remove(n)
        x.op(n)
        if kinds[n] == "tcp":
            [c for c in reactor.connectors if c.port == 7000 + n][0].accept()
        else:
            dict(reactor.resolutions)["h%d.example.com" % n].callback(
                "192.0.2.%d" % (100 + n))
        reactor.settle()
    x.equal(1, len(ready), "ready")
    router.process("a:1|c")
    reactor.settle()
    x.equal(kinds.count("udp") + kinds.count("ip"),
            sum(len(p.written) for p in reactor.udp), "datagrams")
    x.equal(kinds.count("tcp"), sum(c.transport.value() == "a:1|c\r\n"
                                    for c in reactor.connectors), "lines")
    x.state((tuple(kinds),))


def cases(tier):
    thorough = tier == "thorough"
    none = []
    dup = [("any", "set_metric_type m dup")]
    drop = [("any", "drop")]
    extra = 1 if thorough else 0
    yield Case("name", events(HOST, none, none, 7 + extra), split=100)
    yield Case("name-rules", events(HOST, dup, drop, 6 + extra), split=100)
    yield Case("address", events("192.0.2.3", none, none, 7 + extra),
               split=50)
    yield Case("full", events(HOST, none, none, 5 if thorough else 4, fill=998), split=50)
    yield Case("chains", chains, split=30)
    yield Case("readiness", readiness, split=8)
