"""Which simulated scenarios decide which property, and how many runs each tier makes: (scenario, quick, thorough)."""
CHECKS = {
    "S01": {"scenarios": [("save_faults", 6000, 400000)]},
    "S02": {"scenarios": [("load_faults", 6000, 400000)]},
    "S03": {"scenarios": [("rt_info", 6000, 400000)]},
    "S04": {"scenarios": [("rt_scene", 6000, 400000)]},
    "S05": {"scenarios": [("rt_geom", 5000, 400000)]},
    "S06": {"scenarios": [("rt_ctrl", 5000, 400000)]},
    "S07": {"scenarios": [("rt_mat", 5000, 400000)]},
    "S08": {"scenarios": [("rt_anim", 5000, 400000)]},
    "S09": {"scenarios": [("rt_phys", 4500, 400000)]},
    "S10": {"scenarios": [("save_repeat", 5000, 300000)]},
    "S11": {"scenarios": [("load_history", 4000, 300000)]},
    "S12": {"scenarios": [("xref", 5000, 200000)]},
    "S13": {"scenarios": [("release", 4500, 300000)]},
    "S15": {"scenarios": [("containers", 20000, 1000000)]},
    "S16": {"scenarios": [("events", 20000, 1000000)]},
    "S17": {"scenarios": [("errors", 16000, 1000000)]},
    "S18": {"scenarios": [("ids", 6000, 400000)]},
    "S19": {"scenarios": [("transport", 6000, 400000)]},
    "S20": {"scenarios": [("plugins", 12000, 500000)]},
    "S21": {"scenarios": [("clock", 6000, 500000)]},
    "S22": {"scenarios": [("eval", 8000, 600000)]},
    "S23": {"scenarios": [("pieces", 9000, 500000)]},
    "S25": {"scenarios": [("rewrite", 4000, 300000)]},
    "S26": {"scenarios": [("rt_all", 4000, 300000)]},
    "S27": {"scenarios": [("clones", 9000, 500000)]},
    "S24": {"scenarios": [("files", 12000, 600000)]},
}
