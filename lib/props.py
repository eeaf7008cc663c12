"""One function per property: the design model, the executions, the verdict."""
import random

from common import *
import words
import wide


def word_violations(rep, found, aspects):
    n = 0
    for aspect, what, replay in found:
        if aspect in aspects or aspect in ("build", "crash"):
            rep.violation("%s: %s" % (aspect, what), replay)
            n += 1
    return n


def word_design(rep, proof=True):
    rep.add_tlc(design("TaggedPointer", workers=4))
    if proof:
        apalache("WordsApa", "Laws")
        apalache("WordsApa", "Needed")
        rep.cov["symbolic_laws"] = "Laws and Needed proved for all 64-bit words at widths 48..63 (Apalache)"


def beside(*fns):
    """Runs the functions at the same time; the first exception wins."""
    return parallel(lambda f: f(), fns, len(fns))


def C01(rep):
    work = work_dir("C01")
    found, _ = beside(
        lambda: words.execute(work, rep, ("new", "raw", "dang", "box"), dense=TIER != "quick"),
        lambda: word_design(rep))
    word_violations(rep, found, ("pack",))


def C02(rep):
    work = work_dir("C02")
    jobs = []
    for w in (range(56, 64) if TIER == "quick" else range(54, 64)):
        room = 1 << (64 - w)
        for p in (("debug", "release") if TIER != "quick" else (("debug",) if w % 2 else ("release",))):
            jobs += [(w, p, room), (w, p, room + 4)]
            if TIER != "quick" and w >= 56:
                jobs += [(w, p, room + k) for k in (1, 2, 3, room)]
    # of every kind and arity beyond the last tag
    for w in ((60, 62) if TIER == "quick" else (57, 58, 59, 60, 61, 62, 63)):
        jobs += [(w, p, -(1 << (64 - w)) - 43) for p in ("debug", "release")]
    # where a position wraps around the tag type, every setting with that type is concerned
    for w in ((57,) if TIER == "quick" else (57, 58, 60, 63)):
        jobs += [(w, "debug", 257), (w, "release", 260)]
    if TIER != "quick":
        jobs += [(53, "release", 2048), (53, "release", 2050), (52, "release", 515)]

    extra, _ = beside(lambda: wide.run_wide(work, sorted(set(jobs), key=lambda j: -abs(j[2]))),
                      lambda: word_design(rep, proof=False))
    found = words.execute(work, rep, ("new", "dang", "box"), dense=TIER != "quick", extra=extra)
    rep.cov["over_wide_enums"] = len(set(jobs))
    word_violations(rep, found, ("refuse",))


def C03(rep):
    import config
    import enumprops
    work = work_dir("C03")
    rep.add_tlc(design("ConfigMC"))
    m = tlc("ConfigMC", "ConfigMutant")
    if m.ok():
        raise ToolError("Config: the untracked setting is not noticed by the design model")
    found = words.execute(work, rep, ("dang",))
    found += config.walks(work, rep)
    enumprops.under_every_setting(rep, work)
    word_violations(rep, found, ("cfg",))


def C14(rep):
    work = work_dir("C14")
    found, _ = beside(
        lambda: words.execute(work, rep, ("cmp",), dense=TIER != "quick"),
        lambda: word_design(rep))
    word_violations(rep, found, ("order",))


# ---------------------------------------------------------------------------
# Histories of whole values


def hist_check(prop, models, deep=(), extra=None):
    def fn(rep):
        import enumprops
        enumprops.check(prop, rep, models + (list(deep) if TIER != "quick" else []), extra and (lambda: extra(rep)))
    return fn


DEEP = [("TaggedBoxMixed", []), ("TaggedBoxRaw", []), ("TaggedBoxCopyDeep", [])]
C04 = hist_check("C04", [("TaggedBoxMixed", ["tagoff"])], DEEP)
C05 = hist_check("C05", [("TaggedBoxMixed", ["tagoff"])], DEEP)
C06 = hist_check("C06", [("TaggedBoxRaw", [])], DEEP)
C07 = hist_check("C07", [("TaggedBoxCopy", ["sharedfree"]), ("TaggedBoxMixed", ["viewdrops"])], DEEP)
C08 = hist_check("C08", [("TaggedBoxMixed", ["extractkeeps", "discardkeeps"])], DEEP)
C09 = hist_check("C09", [("TaggedBoxCopy", ["sharedfree"]), ("TaggedBoxMixed", ["clonealias"])], DEEP)
C10 = hist_check("C10", [("TaggedBoxCopy", []), ("TaggedBoxKey", [])], DEEP,
                 extra=lambda rep: rep.add_tlc(design("CmpLaws", "CmpLaws" if TIER == "quick" else "CmpLawsDeep")))
C12 = hist_check("C12", [("TaggedBoxMixed", ["failover"])], DEEP)
C13 = hist_check("C13", [("TaggedBoxMixed", ["viewdrops"])], DEEP)


def C11(rep):
    import enumprops
    work = work_dir("C11w")
    enumprops.check("C11", rep, [("TaggedBoxCopy", [])] + (DEEP if TIER != "quick" else []), extra=lambda: word_violations(
        rep, words.execute(work, rep, ("fmt",), widths=(48, 55, 56, 60, 63) if TIER == "quick" else words.WIDTHS), ("fmt",)))


def C15(rep):
    import threads
    threads.C15(rep)


def C16(rep):
    import borrow
    borrow.check(rep)


def C17(rep):
    import scope
    scope.check(rep)


def C18(rep):
    import constants
    constants.check(rep)
