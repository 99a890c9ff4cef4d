"""Case counts and options of each check."""
PLAN = {
    "P01": {"quick": 120000, "thorough": 300000, "batch": 50, "fuzz": 60},
    "P02": {"quick": 57000, "thorough": 300000, "batch": 50, "fuzz": 60},
    "P03": {"quick": 61000, "thorough": 400000, "batch": 100, "fuzz": 60},
    "P04": {"quick": 100000, "thorough": 400000, "batch": 100, "fuzz": 60},
    "P05": {"quick": 89000, "thorough": 400000, "batch": 100, "fuzz": 60},
    "P06": {"quick": 99000, "thorough": 300000, "batch": 100, "fuzz": 60},
    "P07": {"quick": 45000, "thorough": 400000, "batch": 100, "fuzz": 60},
    "P28": {"quick": 140000, "thorough": 300000, "batch": 50, "fuzz": 60},
    "P08": {"quick": 76000, "thorough": 300000, "batch": 50, "fuzz": 60},
    "P09": {"quick": 90000, "thorough": 200000, "batch": 50, "fuzz": 60},
    "P10": {"quick": 100000, "thorough": 300000, "batch": 50, "fuzz": 60},
    "P11": {"quick": 13000, "thorough": 150000, "batch": 20, "fuzz": 60},
    "P12": {"quick": 40000, "thorough": 200000, "batch": 25, "fuzz": 60},
    "P13": {"quick": 56000, "thorough": 200000, "batch": 40, "fuzz": 60},
    "P14": {"quick": 55000, "thorough": 200000, "batch": 40, "fuzz": 60},
    "P15": {"quick": 16000, "thorough": 100000, "batch": 20, "fuzz": 60},
    "P16": {"quick": 60000, "thorough": 200000, "batch": 40, "fuzz": 60},
    "P17": {"quick": 20000, "thorough": 150000, "batch": 25, "fuzz": 60},
    "P19": {"quick": 24000, "thorough": 100000, "batch": 20, "fuzz": 60},
    "P20": {"quick": 130000, "thorough": 300000, "batch": 100, "fuzz": 60},
    "P21": {"quick": 110000, "thorough": 200000, "batch": 50, "fuzz": 60},
    "P22": {"quick": 480000, "thorough": 500000, "batch": 100, "fuzz": 60},
    "P29": {"quick": 110000, "thorough": 300000, "batch": 50, "fuzz": 60},
    "P25": {"quick": 38000, "thorough": 150000, "batch": 50, "fuzz": 60},
    "P26": {"quick": 130000, "thorough": 200000, "batch": 100, "fuzz": 60},
    "P27": {"quick": 380000, "thorough": 1000000, "batch": 200, "fuzz": 90, "cpu": 20},
    "P23": {"quick": 12000, "thorough": 150000, "batch": 10, "fuzz": 0, "programs": ["psdd_inference_main.cpp"]},
    "P24": {"quick": 6000, "thorough": 80000, "batch": 10, "fuzz": 0, "programs": ["uai_compiler.cpp", "psdd_inference_main.cpp"]},
    "P30": {"quick": 40000, "thorough": 200000, "batch": 50, "fuzz": 60},
    "P31": {"quick": 20000, "thorough": 150000, "batch": 20, "fuzz": 0, "programs": ["uai_compiler.cpp", "psdd_inference_main.cpp"]},
    "P32": {"quick": 20000, "thorough": 150000, "batch": 20, "fuzz": 60},
    "P33": {"quick": 6000, "thorough": 100000, "batch": 20, "fuzz": 60, "cpu": 20},
    # a call at every basic block of the library, where the threads take turns
    "P35": {"quick": 10000, "thorough": 100000, "batch": 20, "fuzz": 0, "lib_flags": ["-fsanitize-coverage=trace-pc"]},
    "P36": {"quick": 60000, "thorough": 400000, "batch": 20, "fuzz": 60},
    "P34": {"quick": 100000, "thorough": 400000, "batch": 100, "fuzz": 60},
    "P18": {"quick": 1200000, "thorough": 2000000, "batch": 1000, "fuzz": 60},
}
