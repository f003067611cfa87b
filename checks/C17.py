LEVEL_NOTE = "exhaustive over all texts up to 4 characters and needles up to 3 of a two-letter alphabet; randomised beyond"
DRV = [("drv_string_view.cpp", ["char", "wchar"], ["-DGRP=0"]), ("drv_string_view.cpp", ["u16", "u32", "u8"], ["-DGRP=1"])]
Q1 = '{"find", "find_c", "rfind", "rfind_c", "contains", "contains_c", "first_of_c", "last_of_c", "first_not_of_c", "last_not_of_c", "search", "search_last", "match", "starts", "ends", "starts_c", "ends_c", "at", "idx", "ends_acc", "hash"}'
Q2 = '{"first_of", "last_of", "first_not_of", "last_not_of", "first_of_if", "first_not_of_if", "last_of_if", "last_not_of_if", "cmp", "rel", "cmp_sub", "cmp_sub2", "chars", "copy", "str", "os"}'
QALL = "QKinds \\cup {\"win\"}"
def mk(texts, embeds, needles, enabled, **k):
    d = dict(Texts=texts, Needles=needles, Chars="{97,98,99}", Embeds=embeds, Enabled=enabled, MaxPos="5",
             Configs="{[t |-> x, e |-> y] : x \\in Texts, y \\in Embeds}")
    d.update(k)
    return d
AB = "SeqsUpTo({97,98},4)"
N2 = "SeqsUpTo({97,98},2)"
SIMT = "{<<97,98,97,97,98,97,98,98,97>>, <<32,97,98,32,32,98,9>>, <<97,97,97,97,97,97>>, <<98,32,97,98,97,99,32,97,98,97,99,98>>, <<-56,97,-56,98>>, <<>>}"
SIMN = "{<<>>, <<97>>, <<98,97>>, <<97,97>>, <<97,98,97>>, <<98,99>>, <<32>>, <<97,98,32>>, <<97,97,97>>, <<97,98,97,99,32,97,98,97,99,98>>, <<-56>>}"
SIMW = "{<<97,98,97,97,98,97,98,98,97>>, <<32,97,98,32,32,98,9>>, <<98,32,97,98,97,99,32,97,98,97,99,98>>, <<200,97,200,98>>, <<>>}"
SIMNW = SIMN.replace("-56", "200")
PARTS = [Part("StringView", tv_consts=mk("{}", "{}", "{}", "{}"), drivers=DRV,
    mc=[mk(AB, "{0}", N2 + " \\cup {<<97,98,97>>, <<98,98,98>>}", Q1, MaxPos="5"),
        mk("SeqsUpTo({97,98},3) \\cup {<<97,98,98,97>>, <<32,97,32>>}", "{1}", N2, Q2, MaxPos="4", Chars="{97}")],
    sim=[mk(SIMT, "{0,1,2}", SIMN, QALL, MaxPos="13", _num="150", _depth="60", _variants=["char"]),
         mk(SIMW, "{0,1,2}", SIMNW, QALL, MaxPos="13", _num="100", _depth="60", _variants=["wchar", "u16", "u32", "u8"])])]
