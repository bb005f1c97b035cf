"""Which analyses decide which property."""
BOTH = ("2026", "2025")
NEW = ("2026",)
CONTRACT = ("obligations: REQUIRE/NO_THROW clauses of the contracts plus the obligations of the environment model they reach; "
            "discharged: those shown unreachable for arbitrary inputs in /repo's current code")
from vkdriver import ends, folds
import rules_units as U
import rules_types as T
import rules_tables as B
UNITS = ("obligations: one per compilation, declaration, symbol, macro, include or layout checked against the rule; "
         "discharged: those for which the compiler's own output over /repo's current tree satisfies it")
PROPS = {
    "C01": {"contracts": [("access.cpp", BOTH)], "explain": CONTRACT},
    "C02": {"contracts": [("view.cpp", NEW)], "explain": CONTRACT},
    "C03": {"contracts": [("own.cpp", BOTH)], "explain": CONTRACT},
    "C04": {"contracts": [("sum.cpp", NEW)], "explain": CONTRACT},
    "C05": {"contracts": [("sum.cpp", NEW)], "explain": CONTRACT},
    "C06": {"contracts": [("life.cpp", NEW)], "explain": CONTRACT},
    "C08": {"contracts": [("life.cpp", NEW)], "explain": CONTRACT},
    "C07": {"contracts": [("buf.cpp", NEW)], "explain": CONTRACT},
    "C09": {"contracts": [("str.cpp", NEW)], "explain": CONTRACT},
    "C10": {"contracts": [("utf.cpp", NEW)], "explain": CONTRACT},
    "C11": {"contracts": [("utf.cpp", NEW)], "explain": CONTRACT},
    "C12": {"contracts": [("casing.cpp", NEW)], "rules": [B.case_tables],
            "explain": CONTRACT + "; for the tables one obligation per scalar value and neighbouring pair of entries"},
    "C13": {"contracts": [("os.cpp", NEW)], "explain": CONTRACT},
    "C14": {"contracts": [("os.cpp", NEW)], "explain": CONTRACT},
    "C17": {"contracts": [("glob.cpp", NEW)], "explain": CONTRACT},
    "C34": {"contracts": [("fix.cpp", NEW)], "explain": CONTRACT},
    "C15": {"rules": ends("sum.cpp", "buf.cpp", "life.cpp", "str.cpp", "view.cpp", "fix.cpp", "own.cpp", "access.cpp", "alg.cpp"),
            "explain": "obligations: one per contract (operation and kind of object); discharged: those in which no call of internal_failure, "
                       "abort or std::terminate can be reached from any valid object and argument"},
    "C16": {"contracts": [("perm.cpp", NEW)], "explain": CONTRACT},
    "C18": {"rules": [T.order_only_by_comparator], "explain": "obligations: one per algorithm and element type; discharged: those whose instantiation with operator-free elements compiles"},
    "C20": {"contracts": [("feed.cpp", NEW)], "rules": [folds("feed_fold.cpp")], "explain": CONTRACT},
    "C21": {"contracts": [("hash.cpp", NEW)], "explain": CONTRACT},
    "C28": {"contracts": [("thread.cpp", NEW)], "explain": CONTRACT},
    "C30": {"contracts": [("alg.cpp", NEW)], "explain": CONTRACT},
    "C27": {"contracts": [("arg.cpp", NEW)], "explain": CONTRACT},
    "C31": {"contracts": [("regex.cpp", NEW)], "explain": CONTRACT},
    "C32": {"contracts": [("view.cpp", NEW)], "explain": CONTRACT},
    "C23": {"rules": [U.epochs_are_isolated, U.frozen_epoch_unchanged], "explain": UNITS},
    "C25": {"rules": [T.type_assertions, T.compile_fail_witnesses], "explain": "obligations: one per static assertion and per program that must or must not compile; discharged: those the compiler decides as required"},
    "C24": {"rules": [U.headers_stand_alone, U.everything_declared_is_defined], "explain": UNITS},
}
