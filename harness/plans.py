"""Which parts of the machinery decide which property."""

import impl  # noqa: F401
import mcsas3.mc_analysis  # noqa: F401  (once, before forking)
import mcsas3.mc_hat  # noqa: F401

import drv_optimizer as opt
import drv_analysis as an
import drv_data as dt
import drv_files as fl
import drv_cli as cl
import drv_config as cf
import drv_hdf as hd
import drv_index as ix
import drv_report as rp
import drv_model as md
import drv_run as rn
import drv_state as st

PLANS = {}
RUN = ["DoTake", "DoCompute", "DoAcquire", "DoOpen", "DoWrite", "DoFault", "DoStored", "DoRelease", "DoInterrupt"]


def plan(*props):
    def deco(f):
        for p in props:
            PLANS[p] = f
        return f

    return deco


@plan("C01", "C02", "C03", "C05")
def optimizer(run):
    opt.exact(run)
    opt.real(run)


@plan("C04")
def picks(run):
    opt.exact(run, reload=False)
    opt.picks(run)
    opt.real(run)


@plan("C06")
def repetitions(run):
    run.model_check("MCRun", env=dict(MODE="mc"), need=RUN)
    rn.runs(run)


@plan("C07")
def independent(run):
    run.model_check("MCRun", env=dict(MODE="mc"), need=RUN)
    rn.same(run)


@plan("C17")
def faults(run):
    run.model_check("MCRun", env=dict(MODE="mc"), need=RUN)
    rn.faults(run)


@plan("C08")
def hdf(run):
    run.model_check("MCHdf", env=dict(MODE="mc"), need=["DoStore"])
    hd.histories(run)


@plan("C09")
def indices(run):
    ix.check(run)


@plan("C12", "C13")
def data(run):
    run.model_check("MCDataPrep", need=["DoClip", "DoOmit", "DoBin"])
    dt.prepare(run, run.prop == "C13")
    if run.prop == "C13":
        dt.many_points(run)
    if run.prop == "C12":
        dt.defaults(run)


@plan("C10")
def restore(run):
    dt.restores(run)


@plan("C11")
def states(run):
    st.states(run)
    opt.exact(run, replays=False)
    opt.real(run)


@plan("C14", "C15", "C16")
def analysis(run):
    an.analyses(run)


@plan("C18")
def pixels(run):
    fl.two_d(run)


@plan("C19")
def files(run):
    fl.files(run)


@plan("C20")
def command_line(run):
    cl.check(run)


@plan("C21")
def options(run):
    cf.check(run)


@plan("C22")
def reports(run):
    rp.reports(run)


@plan("C23")
def contributions(run):
    md.models(run)
