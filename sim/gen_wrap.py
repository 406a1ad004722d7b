#!/usr/bin/env python3
"""Generate pass-through wrappers (ld --wrap) for every clingo C API function."""
import re, subprocess, sys

HEAVY = {
    "clingo_propagate_control_add_clause", "clingo_propagate_control_propagate",
    "clingo_propagate_control_add_literal", "clingo_propagate_control_add_watch",
    "clingo_propagate_init_add_clause", "clingo_propagate_init_propagate",
    "clingo_propagate_init_add_literal", "clingo_model_extend",
    "clingo_control_ground", "clingo_control_solve", "clingo_solve_handle_get",
    "clingo_solve_handle_resume", "clingo_solve_handle_model", "clingo_solve_handle_wait",
    "clingo_solve_handle_cancel", "clingo_solve_handle_close", "clingo_control_interrupt",
}
# written by hand in shim.cc
MANUAL = {"clingo_main", "clingo_options_add", "clingo_options_add_flag",
    "clingo_propagate_control_add_clause", "clingo_propagate_control_propagate",
    "clingo_propagate_control_add_literal", "clingo_propagate_control_add_watch",
    "clingo_propagate_control_remove_watch",
    "clingo_propagate_init_add_clause", "clingo_propagate_init_propagate",
    "clingo_propagate_init_add_literal",
    "clingo_control_register_propagator",
}

def main():
    inc, out_cc, out_flags = sys.argv[1:4]
    src = subprocess.run(["g++", "-E", "-P", "-x", "c++", "-I", inc, "-include", "clingo.h", "/dev/null"],
                         check=True, capture_output=True, text=True).stdout
    src = re.sub(r'__attribute__\s*\(\([^()]*(\([^()]*\))?[^()]*\)\)', ' ', src)
    protos = []
    for stm in src.split(";"):
        stm = re.split(r'[{}]', stm)[-1].strip()
        m = re.match(r'((?:[A-Za-z_][\w ]*?[\s\*]+))(clingo_\w+)\s*\((.*)\)$', stm, re.S)
        if m is None or "typedef" in m.group(1) or "return" in m.group(1) or "=" in stm:
            continue
        ret = re.sub(r'\bextern\b|"C"', '', m.group(1)).strip()
        protos.append((ret, m.group(2), m.group(3).strip()))
    seen = set()
    lines = ['#include <clingo.h>', '#include "shim.h"', '']
    flags = []
    for ret, name, args in protos:
        if name in seen or "..." in args:
            continue
        seen.add(name)
        flags.append("-Wl,--wrap=" + name)
        if name in MANUAL:
            continue
        params, names = [], []
        if args not in ("", "void"):
            depth, cur = 0, ""
            parts = []
            for ch in args:
                if ch == "(":
                    depth += 1
                if ch == ")":
                    depth -= 1
                if ch == "," and depth == 0:
                    parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            parts.append(cur)
            for i, p in enumerate(parts):
                p = p.strip()
                fm = re.match(r'(.*\(\s*\*\s*)(\w*)(\s*\).*)$', p, re.S)
                if fm:
                    params.append(f"{fm.group(1)}a{i}{fm.group(3)}")
                else:
                    am = re.match(r'^(.*?[\s\*])(\w+)(\s*\[.*\])?$', p, re.S)
                    if am and am.group(2) not in ("int", "char", "bool", "size_t"):
                        params.append(f"{am.group(1)}a{i}{am.group(3) or ''}")
                    else:
                        params.append(f"{p} a{i}")
                names.append(f"a{i}")
        ps, ns = ", ".join(params), ", ".join(names)
        heavy = "true" if name in HEAVY else "false"
        h = hash_id(name)
        lines.append(f'extern "C" {ret} __real_{name}({ps});')
        if ret == "void":
            lines.append(f'extern "C" void __wrap_{name}({ps}) {{ sim::ApiGuard g({h}U, {heavy}); __real_{name}({ns}); }}')
        else:
            lines.append(f'extern "C" {ret} __wrap_{name}({ps}) {{ sim::ApiGuard g({h}U, {heavy}); return __real_{name}({ns}); }}')
    missing = MANUAL - seen
    if missing or len(seen) < 150:
        sys.exit("gen_wrap: unexpected clingo.h, missing %s, %d functions" % (missing, len(seen)))
    open(out_cc, "w").write("\n".join(lines) + "\n")
    open(out_flags, "w").write("\n".join(flags) + "\n")

def hash_id(name):
    h = 2166136261
    for c in name.encode():
        h = ((h ^ c) * 16777619) & 0xffffffff
    return h

main()
