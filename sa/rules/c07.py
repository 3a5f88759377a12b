from ..packets import *

RULES = {"flags": "no accepting path admits a wrong flag in the fixed header", "length": "an accepting path's fields end exactly at the packet's end, and a string is never read past it",
         "identifier": "no accepting path admits packet identifier 0 where one is needed", "bits": "no accepting path admits a reserved bit", "qos": "no accepting path admits a QoS or return code that does not exist"}

def check(c):
    for k, t in RULES.items(): c.rule(k, t)
    c.rule("accepted", "no path on which all fields are well-formed and end at the packet's end refuses the packet")
    c.rule("unknown", "a packet type that does not exist is refused")
    for five in (False, True):
        F = Formats(c, five)
        for name, cn, ty, q, lay in packets(five):
            def go():
                V, l, r, a, sh = decoded(F, name, cn, q, lay)
                oid = "%s.%s." % (F.v, name)
                for k in set(RULES) | set(r.bad): verdicts(c, oid + k, V.fn.where, r.bad.get(k, []))
                verdicts(c, oid + "accepted", V.fn.where, a.bad.get("accepted", []))
                if l.bad and not r.bad: raise Murky("the decoder's layout is not the standard's: %s" % l.bad["layout"][0][0][:200])
                c.count("path classes judged", l.n + a.n)
            c.part("%s.%s" % (F.v, name), go)
        c.part(F.v + ".dispatch.unknown", dispatch, c, F, True)
        judged_coder(c, F.v + ".text", lambda: summary(F, "readUTF"), read_counted, True, five)
        if five:
            judged_coder(c, "V5.options", lambda: summary(F, "SubscribeOptions.unpack"), takes_bits, {}, {b for b in range(64) if b & 3 < 3 and b >> 4 < 3})
