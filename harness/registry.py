"""Property id -> check function (imported lazily)."""
import importlib

WHERE = {
    "C01": "checks_verdict", "C02": "checks_verdict", "C03": "checks_verdict", "C04": "checks_verdict",
    "C05": "checks_monitor", "C06": "checks_passes", "C07": "checks_passes", "C08": "checks_bz",
    "C09": "checks_surface", "C10": "checks_lib", "C11": "checks_front", "C12": "checks_aux", "C13": "checks_bounds", "C14": "checks_syntax", "C15": "checks_sat", "C16": "checks_session", "C17": "checks_files", "C18": "checks_written", "C19": "checks_code", "C20": "checks_gentrace",
}


def run(pid):
    m = importlib.import_module(WHERE[pid])
    return getattr(m, pid.lower())()
