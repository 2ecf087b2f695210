MODULES = {"P01": "pack", "P02": "pack", "P03": "pack", "P04": "pack", "P05": "packviews", "P06": "transfer", "P07": "views", "P08": "broadcast", "P09": "devstd",
           "P10": "reductions", "P11": "workspace", "P12": "expr", "P13": "rational", "P14": "units", "P15": "comm", "P16": "asserts", "P17": "session", "P18": "session", "P19": "traits", "P20": "teamutils", "P21": "lininterp", "P22": "tridiag", "P23": "params", "P24": "factory", "P25": "loggers", "P26": "ranges", "P27": "strs", "P28": "yamlio", "P29": "unitnames"}
