"""Property id -> check."""
import yaml_checks as y
import config_checks as c
import micro_checks as m
import deck_checks as d
import setup_checks as s
import run_checks as r

CHECKS = {"P01": y.p01, "P02": y.p02, "P03": y.p03, "P04": y.p04, "P05": y.p05,
          "P06": c.p06, "P07": c.p07, "P08": c.p08, "P09": c.p09, "P10": c.p10, "P11": c.p11, "P12": c.p12,
          "P13": m.p13, "P14": m.p14,
          "P15": d.p15,
          "P16": s.p16, "P17": s.p17, "P18": s.p18, "P19": s.p19,
          "P20": r.p20, "P21": r.p21, "P22": r.p22, "P23": r.p23, "P24": r.p24, "P25": r.p25, "P26": r.p26, "P27": r.p27, "P28": r.p28, "P29": r.p29}
