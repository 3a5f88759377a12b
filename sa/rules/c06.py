from ..packets import *

def check(c):
    c.rule("length", "the coder of lengths writes seven bits per byte, least significant first; the decoder is its inverse, reports the bytes used and refuses a fifth byte")
    c.rule("integer", "integers are big-endian of their width")
    c.rule("counted", "strings and binary data carry the length in bytes of what follows, and are read with that length")
    for five in (False, True):
        F = Formats(c, five); v = F.v; K = "VBIs" if five else "FixedHeaders"
        def j(oid, what, f, *a): judged_coder(c, "%s.%s" % (v, oid), lambda: summary(F, what), f, *a)
        j("length.encoder", K + ".encode", vbi_encode)
        j("length.decoder", K + ".decode", vbi_decode, five)
        for w in (2, 4) if five else (2,):
            j("int%d.encoder" % (8 * w), "writeInt%d" % (8 * w), write_int, w)
            j("int%d.decoder" % (8 * w), "readInt%d" % (8 * w), read_int, w)
        j("text.encoder", "writeUTF", write_counted, True)
        j("text.decoder", "readUTF", read_counted, True, five)
        j("binary.encoder", "writeBytes", write_counted, False)
        j("binary.decoder", "readBytes", read_counted, False, five)
