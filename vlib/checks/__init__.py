"""all checks, by property id"""
CHECKS = {}


def add(c):
    CHECKS[c.pid] = c


from . import parser_checks, tree_checks, analyzer_checks, dml_checks, fault_checks, value_checks, ddl_checks, name_checks, history_checks, host_checks     # noqa: E402,F401
