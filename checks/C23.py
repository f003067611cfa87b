LEVEL_NOTE = "every navigation operation with every legal displacement between every pair of positions of 23 iterator adaptors over sequences of up to 3 elements (thorough: 4), every filter mask, step and set of checks"
PARTS = [Part("Nav", name="navigation", tv_consts=dict(MaxN="5", Configs="AllConfigs"), drivers=[("drv_nav.cpp", ["std"])], max_len=60,
              mc=[dict(MaxN="3", Configs="AllConfigs")], sim=[dict(MaxN="4", Configs="AllConfigs", _num="200", _depth="30")],
              mc_thorough=[dict(MaxN="4", Configs="AllConfigs")])]
PARTS += [Part("IterView", name="view", tv_consts=dict(MaxN="4", Configs="AllConfigs"), drivers=[("drv_iterview.cpp", ["std"])], max_len=60, end=False,
               mc=[dict(MaxN="3", Configs="AllConfigs")], sim=[dict(MaxN="4", Configs="AllConfigs", _num="200", _depth="30")],
               mc_thorough=[dict(MaxN="4", Configs="AllConfigs")]),
          Part("OutIter", name="output", tv_consts=dict(Limit="20", Configs="AllConfigs"), drivers=[("drv_outiter.cpp", ["std"])], max_len=60, end=False,
               mc=[dict(Limit="3", Configs="AllConfigs")], sim=[dict(Limit="12", Configs="AllConfigs", _num="200", _depth="14")],
               mc_thorough=[dict(Limit="4", Configs="AllConfigs")])]
