"""The published band code table, written out independently."""
import re

# code without / with a long response, lower bound of the rate
ROWS = [
    (5000.0, "J", "J"),
    (1000.0, "G", "F"),
    (250.0, "D", "C"),
    (80.0, "E", "H"),
    (10.0, "S", "B"),
    (1.0, "M", "M"),  # > 1 to < 10
    # ~ 1: L
    (0.1, "V", "V"),
    (0.01, "U", "U"),
    (0.001, "W", "W"),
    (0.0001, "R", "R"),
    (0.00001, "P", "P"),
    (0.000001, "T", "T"),
    (0.0, "Q", "Q"),
]
BOUNDS = [r[0] for r in ROWS[:-1]]
ORDER = {c: k for k, c in enumerate("QTPRWUVLM")}
for _k, _cs in enumerate(["SB", "EH", "DC", "GF", "J"]):
    for _c in _cs:
        ORDER[_c] = 9 + _k
NUMBERS = {"J": [5000], "F": [1000, 5000], "G": [1000, 5000], "D": [250, 1000], "C": [250, 1000], "E": [80, 250], "H": [80, 250],
           "S": [10, 80], "B": [10, 80], "M": [1, 10], "L": [1], "V": [0.1, 1], "U": [0.01, 0.1], "W": [0.001, 0.01],
           "R": [0.0001, 0.001], "P": [0.00001, 0.0001], "T": [0.000001, 0.00001], "Q": [0.000001], "I": []}
TYPES = {"E": "Extremely Short Period", "S": "Short Period", "H": "High Broadband", "B": "Broadband", "M": "Mid Period", "L": "Long Period",
         "V": "Very Long Period", "U": "Ultra Long Period", "W": "Ultra-ultra Long Period", "R": "Extremely Long Period",
         "I": "Irregularly sampled"}
LONG, SHORT = set("FCHB"), set("GDES")


def row(rate, long):
    for lo, s, b in ROWS:
        if rate >= lo:
            return b if long else s


def allowed(rate, resp_hz):
    """The codes the table allows for a positive rate; None is no corner given."""
    long = resp_hz is not None and resp_hz <= 0.1
    if rate == 1:
        return {"L"}
    if 0.5 < rate < 1:
        return {"L", "V"}
    if 1 < rate < 1.5:
        return {"M", "L"}
    return {row(rate, long)}


def numbers(text):
    return [float(x) for x in re.findall(r"\d+(?:\.\d+)?(?:[eE][-+]?\d+)?", text)]
