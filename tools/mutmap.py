"""Which checks concern which function (for tools/mutate.py)."""
import ast
FN = {
 ("array1d.py", "_check_array"): "P06 P11", ("array1d.py", "timeseriesmatrix"): "P31 P06", ("array1d.py", "position"): "P06 P31",
 ("array1d.py", "trim_offsets"): "P07", ("array1d.py", "waterfall"): "P35 P30", ("array1d.py", "plot"): "P35",
 ("array1d.py", "_pick_on_threshold"): "P31", ("array1d.py", "auto_pick_first_arrivals"): "P31", ("array1d.py", "manual_pick_first_arrivals"): "P30",
 ("array1d.py", "interactive_mute"): "P30 P08 P12", ("array1d.py", "mute"): "P08 P12", ("array1d.py", "from_files"): "P11 P09 P37 P10", ("array1d.py", "parse_source"): "P09 P10",
 ("array1d.py", "to_file"): "P10", ("array1d.py", "xcorrelate"): "P37", ("array1d.py", "from_array1d"): "P04", ("array1d.py", "__eq__"): "P38", ("array1d.py", "is_similar"): "P38",
 ("array1d.py", "_flipped_tseries_and_offsets"): "P06 P19", ("array1d.py", "_flip_required"): "P06 P20", ("array1d.py", "trim"): "P01 P12", ("array1d.py", "zero_pad"): "P02 P12",
 ("peaks.py", "__eq__"): "P38 P24", ("peakssuite.py", "__eq__"): "P38 P24", ("peaks.py", "_parse_peaks"): "P28", ("peaks.py", "from_max"): "P28", ("peaks.py", "_plot"): "P35", ("peaks.py", "plot"): "P35",
 ("peaks.py", "reject_limits_outside"): "P21 P22", ("peaks.py", "simplify_mpeaks"): "P26 P27", ("peaks.py", "from_dict"): "P24 P22", ("peaks.py", "to_json"): "P24", ("peaks.py", "__init__"): "P22 P21 P24",
 ("peakssuite.py", "_draw_box"): "P23", ("peakssuite.py", "interactive_trimming"): "P23", ("peakssuite.py", "from_max"): "P28", ("peakssuite.py", "_drop"): "P27", ("peakssuite.py", "_drop_indices"): "P27",
 ("peakssuite.py", "plot"): "P35 P23", ("peakssuite.py", "plot_resolution_limits"): "P32 P35", ("peakssuite.py", "calc_resolution_limits"): "P32", ("peakssuite.py", "plot_statistics"): "P35",
 ("peakssuite.py", "statistics"): "P27", ("peakssuite.py", "to_array"): "P26 P27", ("peakssuite.py", "from_dict"): "P25 P24", ("peakssuite.py", "from_json"): "P24 P25",
 ("wavefieldtransforms.py", "plot"): "P35 P17", ("wavefieldtransforms.py", "plot_snr"): "P35", ("wavefieldtransforms.py", "normalize"): "P17", ("wavefieldtransforms.py", "find_peak_power"): "P17 P20",
 ("wavefieldtransforms.py", "stack"): "P18 P13", ("wavefieldtransforms.py", "calculate_snr"): "P14",
 ("maswworkflows.py", "calculate_snr"): "P14", ("sensor1c.py", "from_trace"): "P09 P11 P10", ("sensor1c.py", "_from_trace_seg2"): "P09 P11", ("sensor1c.py", "_from_trace_segy"): "P09", ("sensor1c.py", "_from_trace_su"): "P09 P10",
 ("sensor1c.py", "_is_similar"): "P38 P03", ("sensor1c.py", "__eq__"): "P38", ("activetimeseries.py", "__eq__"): "P38", ("activetimeseries.py", "_is_similar"): "P38 P03 P05",
 ("activetimeseries.py", "zero_pad"): "P02", ("activetimeseries.py", "trim"): "P01", ("activetimeseries.py", "stack_append"): "P03", ("activetimeseries.py", "crosscorr_shift"): "P05",
 ("activetimeseries.py", "from_cross_stack"): "P05", ("activetimeseries.py", "from_activetimeseries"): "P04", ("sensor1c.py", "from_activetimeseries"): "P04", ("sensor1c.py", "from_sensor1c"): "P04",
 ("source.py", "__eq__"): "P38", ("source.py", "__init__"): "P04 P38 P37", ("masw.py", "create_settings_dict"): "P15", ("masw.py", "run"): "P12",
}
SKIP = {"_fill_corr", "from_data_matrix", "from_peakssuite", "exponential_decay", "filler"}
_t = {}


def fn(f, line):
    if f not in _t:
        t = ast.parse(open("/repo/swprocess/" + f, newline="").read().replace("\r\n", "\n"))
        _t[f] = [(n.lineno, n.name) for n in ast.walk(t) if isinstance(n, ast.FunctionDef) for _ in [0]], \
                [(n.lineno, n.end_lineno, n.name) for n in ast.walk(t) if isinstance(n, ast.FunctionDef)]
    name = [x for x in _t[f][1] if x[0] <= line <= x[1]]
    return max(name)[2] if name else "-"
