"""Typestate analysis: the handler protocol automaton (init, then per maximal run of one kind before_X, X*, after_X, then
final) is run by abstract interpretation over every path, normal and exceptional, of the PBF and XML readers. Handler
callbacks are opaque calls that return, throw StopReading or throw anything else; the XML library delivers the start and
end events of an arbitrary well-formed document, cut into buffers anywhere."""
from ir import translate
from absint import AbsInt, St
from rules.protocol import Proto, ProtoHooks, EV


def run(ctx):
    ctx.rules = ["protocol automaton violated by a callback on some path", "return without final", "StopReading escapes the reader",
                 "final while another exception is in flight or was swallowed"]
    ctx.assumptions = ["the XML library delivers balanced start/end events with one root element",
                       "opaque callees only change objects they are given a pointer to"]
    for ndebug in ((True, False) if ctx.thorough else (True,)):
        m = translate("input.cpp", ndebug=ndebug, keep=[r"^Osmium::OSM::"])
        for where, fn in (("PBF reader", "drv_pbf"), ("XML reader", "drv_xml")):
            h = ProtoHooks(ctx, where)
            ai = AbsInt(m, m.fn(fn), h)
            s = St()
            s.auto = Proto.START
            ai.run(s)
            ctx.count("abstract states", ai.nstates)
            ctx.count("exits checked", len(ai.exits))
            ctx.count("callback sites", len(h.sites))
            ctx.count("XML parser configurations", len(h.conf))
            missing = [e for e in EV.values() if e not in h.nevents]
            for e in EV.values():
                ctx.ok("%s: %s reached in %d abstract states" % (where, e, h.nevents.get(e, 0)))
            ctx.require(not missing, "%s:missing" % where, "%s: no path calls %s" % (where, ", ".join(k for k, v in EV.items() if v in missing)))
