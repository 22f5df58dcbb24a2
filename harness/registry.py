CHECKS = {
    "P01": ("p_timeseries", "p01"),
    "P02": ("p_timeseries", "p02"),
    "P03": ("p_timeseries", "p03"),
    "P04": ("p_timeseries", "p04"),
    "P05": ("p_timeseries", "p05"),
    "P06": ("p_array", "p06"),
    "P07": ("p_array", "p07"),
    "P08": ("p_array", "p08"),
    "P09": ("p_files", "p09"),
    "P10": ("p_files", "p10"),
    "P11": ("p_files", "p11"),
    "P37": ("p_files", "p37"),
    "P16": ("p_transform", "p16"),
    "P19": ("p_transform", "p19"),
    "P20": ("p_transform", "p20"),
    "P17": ("p_image", "p17"),
    "P18": ("p_image", "p18"),
    "P12": ("p_workflow", "p12"),
    "P13": ("p_workflow", "p13"),
    "P14": ("p_workflow", "p14"),
    "P15": ("p_settings", "p15"),
    "P35": ("p_plot", "p35"),
    "P36": ("p_settings", "p36"),
    "P21": ("p_peaks", "p21"),
    "P22": ("p_peaks", "p22"),
    "P23": ("p_peaks", "p23"),
    "P24": ("p_store", "p24"),
    "P25": ("p_store", "p25"),
    "P26": ("p_reduce", "p26"),
    "P27": ("p_reduce", "p27"),
    "P28": ("p_max", "p28"),
    "P31": ("p_array", "p31"),
    "P29": ("p_utils", "p29"),
    "P30": ("p_interact", "p30"),
    "P32": ("p_limits", "p32"),
    "P33": ("p_stats", "p33"),
    "P34": ("p_inversion", "p34"),
    "P38": ("p_equality", "p38"),
}
