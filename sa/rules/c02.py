from ..packets import *

def check(c, five=False):
    c.rule("encoder", "on every path, what an encoder returns is the fixed header followed by the fields of the standard's layout, and the length given to the header is the length of what follows")
    c.rule("decoder", "on every accepting path, each field of the layout is set to the bytes at its place, flags bit by bit")
    c.rule("header", "the first byte of a packet is made of type and flags at the standard's positions and followed by the remaining length; the decoder takes them from there")
    c.rule("new", "a new packet has the header flags its type demands, and the properties and reason code of its type")
    c.rule("dispatch", "the class that decodes a packet is the one of the type in its first byte")
    F = Formats(c, five)
    layouts(c, F)
    headers(c, F)
    constructors(c, F)
    c.part(F.v + ".dispatch", dispatch, c, F)
    if five:
        B = (False, True)
        judged_coder(c, "V5.options.encoder", lambda: summary(F, "SubscribeOptions.pack"), packs_bits, {"QoS": (0, range(3)), "noLocal": (2, B), "retainAsPublished": (3, B), "retainHandling": (4, range(3))})
        judged_coder(c, "V5.options.decoder", lambda: summary(F, "SubscribeOptions.unpack"), takes_bits, {"QoS": (0, 3), "noLocal": (2, 1), "retainAsPublished": (3, 1), "retainHandling": (4, 3)})
