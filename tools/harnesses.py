def _tbl(name, kinds):
    t = []
    for td, gens in kinds.items():
        for out, flags in gens:
            t.append(("include/marco/Dialect/%s/IR/%s.td" % (name, td), "marco/Dialect/%s/IR/%s" % (name, out), flags))
    return t


def _dialect(name, short, types):
    k = {"Attributes": [("Attributes.h.inc", "-gen-attrdef-decls"), ("Attributes.cpp.inc", "-gen-attrdef-defs")],
         "Ops": [("Ops.h.inc", "-gen-op-decls"), ("Ops.cpp.inc", "-gen-op-defs")],
         "Dialect": [("Dialect.h.inc", "-gen-dialect-decls -dialect=" + short),
                     ("Dialect.cpp.inc", "-gen-dialect-defs -dialect=" + short)]}
    if types:
        k["Types"] = [("Types.h.inc", "-gen-typedef-decls -typedefs-dialect=" + short),
                      ("Types.cpp.inc", "-gen-typedef-defs -typedefs-dialect=" + short)]
    return _tbl(name, k)


import os as _os
_VFT = _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "harness", "vft.td")
_MODELING = _dialect("Modeling", "modeling", False)

_BM = (_dialect("BaseModelica", "bmodelica", True) +
       _tbl("BaseModelica", {"Enums": [("Enums.h.inc", "-gen-enum-decls"), ("Enums.cpp.inc", "-gen-enum-defs")],
                             "AttrInterfaces": [("AttrInterfaces.h.inc", "-gen-attr-interface-decls"),
                                                ("AttrInterfaces.cpp.inc", "-gen-attr-interface-defs")],
                             "TypeInterfaces": [("TypeInterfaces.h.inc", "-gen-type-interface-decls"),
                                                ("TypeInterfaces.cpp.inc", "-gen-type-interface-defs")],
                             "OpInterfaces": [("OpInterfaces.h.inc", "-gen-op-interface-decls"),
                                              ("OpInterfaces.cpp.inc", "-gen-op-interface-defs")]}) +
       [("include/marco/Dialect/BaseModelica/Transforms/Passes.td", "marco/Dialect/BaseModelica/Transforms/Passes.h.inc",
         "-gen-pass-decls -name=BaseModelica")] + _MODELING)
_BMT = "lib/Dialect/BaseModelica/Transforms/"

HARNESSES = {
    "bm": {"srcs": ["bm.cpp"], "libs": ["modeling"], "cxxflags": "-include bmshim.h",
           "repo_dirs": ["lib/Dialect/Modeling/IR", "lib/Dialect/BaseModelica/IR"],
           "repo_srcs": [_BMT + f for f in (
               "DerivableOpInterfaceImpl.cpp", "DerivableTypeInterfaceImpl.cpp", "InvertibleOpInterfaceImpl.cpp",
               "EquationExpressionOpInterfaceImpl.cpp", "ConstantMaterializableTypeInterfaceImpl.cpp",
               "EquationExplicitationTest.cpp",
               "AutomaticDifferentiation/ForwardAD.cpp",
               "AutomaticDifferentiation/AutomaticDifferentiation.cpp")],
           "tblgen": _BM},
    "model": {"srcs": ["model.cpp"], "libs": ["modeling", "parser", "lexer", "ast"], "cxxflags": "-include bmshim.h",
              "repo_dirs": ["lib/Dialect/%s/IR" % d for d in ("Modeling", "BaseModelica", "SUNDIALS", "IDA", "KINSOL", "Runtime")] +
                           ["lib/Dialect/BaseModelica/Analysis", "lib/Codegen/Lowering"] +
                           [_BMT[:-1] + d for d in ("", "/Modeling", "/Solvers", "/AutomaticDifferentiation")],
              # (these need a newer MLIR)
              "exclude": ["BufferizableOpInterfaceImpl.cpp", "AllInterfaces.cpp", "AllocationOpInterfaceImpl.cpp"],
              "syslibs": ["-lMLIR", "-lLLVM", "-l:libclang-cpp.so.20.1"],
              "tblgen": _BM + [t for d, n, y in (("SUNDIALS", "sundials", True), ("IDA", "ida", True), ("KINSOL", "kinsol", True),
                                                 ("Runtime", "runtime", True)) for t in _dialect(d, n, y)] +
                        [("include/marco/Dialect/Runtime/IR/Interfaces.td", "marco/Dialect/Runtime/IR/X.inc", "")][:0]},
    "idx": {"srcs": ["idx.cpp"], "libs": ["modeling"]},
    "access": {"srcs": ["access.cpp"], "libs": ["modeling"]},
    "mcim": {"srcs": ["mcim.cpp"], "libs": ["modeling"]},
    "matching": {"srcs": ["matching.cpp"], "libs": ["modeling"]},
    "pantelides": {"srcs": ["pantelides.cpp"], "libs": ["modeling"]},
    "dep": {"srcs": ["dep.cpp"], "libs": ["modeling"]},
    "graph": {"srcs": ["graph.cpp"], "libs": ["modeling"]},
    "lexer": {"srcs": ["lexer.cpp"], "libs": ["parser", "lexer", "ast"]},
    "parser": {"srcs": ["parser.cpp"], "libs": ["parser", "lexer", "ast"],
               "syslibs": ["-lMLIR", "-lLLVM", "-l:libclang-cpp.so.20.1"]},
    "filter": {"srcs": ["filter.cpp"], "libs": ["filter", "lexer"],
               "repo_srcs": ["lib/VariableFilter/VariableFilter.cpp"],
               "cxxflags": "-include vfshim.h",
               "syslibs": ["-lMLIR", "-lLLVM", "-l:libclang-cpp.so.20.1"]},
    "io": {"srcs": ["io.cpp"], "libs": ["io"]},
    "dialects": {"srcs": ["dialects.cpp"], "libs": ["modeling"], "repo_dirs": ["lib/Dialect/Modeling/IR"],
                 "tblgen": _MODELING + [(_VFT, "vft_ops.h.inc", "-gen-op-decls"), (_VFT, "vft_ops.cpp.inc", "-gen-op-defs"),
                                        (_VFT, "vft_dialect.h.inc", "-gen-dialect-decls -dialect=vft"),
                                        (_VFT, "vft_dialect.cpp.inc", "-gen-dialect-defs -dialect=vft")]},
    "solvers": {"srcs": ["solvers.cpp"], "libs": ["modeling"],
                "repo_dirs": ["lib/Dialect/%s/IR" % d for d in ("Modeling", "SUNDIALS", "IDA", "KINSOL")],
                "tblgen": _MODELING + _dialect("SUNDIALS", "sundials", True) + _dialect("IDA", "ida", True) +
                _dialect("KINSOL", "kinsol", True)},
    "threads_matching": {"srcs": ["matching.cpp"], "libs": ["modeling"], "variant": "tsan", "cxxflags": "-DVF_THREADS",
                         "syslibs": ["-Wl,--wrap=pthread_mutex_lock", "-lMLIR", "-lLLVM"]},
    "threads_dep": {"srcs": ["dep.cpp"], "libs": ["modeling"], "variant": "tsan", "cxxflags": "-DVF_THREADS",
                    "syslibs": ["-Wl,--wrap=pthread_mutex_lock", "-lMLIR", "-lLLVM"]},
}
