LEVEL_NOTE = "exhaustive over all texts up to 4 characters, every window and every single modifier; randomised sequences of modifiers beyond"
DRV = [("drv_string_view.cpp", ["char", "wchar"], ["-DGRP=0"]), ("drv_string_view.cpp", ["u16", "u32", "u8"], ["-DGRP=1"])]
def mk(texts, embeds, needles, enabled, **k):
    d = dict(Texts=texts, Needles=needles, Chars="{97,32}", Embeds=embeds, Enabled=enabled, MaxPos="5",
             Configs="{[t |-> x, e |-> y] : x \\in Texts, y \\in Embeds}")
    d.update(k)
    return d
SIMT = "{<<97,98,97,97,98,97,98,98,97>>, <<32,97,98,32,32,98,9,32>>, <<97,97,97,97,97,97>>, <<98,32,97,98,97,99,32,97,98,97,99,98,32,32>>, <<44,97,44,44,98,44>>, <<32,32,32>>, <<9,10,11,97,12,13,11>>, <<11,98,32,97,13,11,12,10,9>>, <<>>}"
SIMN = "{<<>>, <<97>>, <<98,97>>, <<97,97>>, <<97,98,97>>, <<32>>, <<97,98,32>>, <<44>>, <<44,44>>}"
MALL = 'MKinds'
PARTS = [Part("StringView", tv_consts=mk("{}", "{}", "{}", "{}"), drivers=DRV,
    mc=[mk("SeqsUpTo({97,32},3)", "{0,2}", "{<<>>, <<97>>, <<32>>, <<97,32>>, <<97,97>>}", "MKinds \\ {\"reset\"}", MaxPos="4", _variants=["char", "u16"]),
        mk("SeqsN({97,32},4) \\cup {<<97,98,97,32,97>>}", "{1}", "{<<97>>, <<32,97>>}", MALL, MaxPos="2", _variants=["char", "wchar", "u32", "u8"])],
    sim=[mk(SIMT, "{0,1,2}", SIMN, MALL, MaxPos="13", Chars="{97,98,32,44}", _num="200", _depth="40")])]
