"""What decides each property: models (specification alone) and runs (specification against the implementation).

model: (module, cfg, expected result, seconds it may take: beyond, it counts as explored up to there)
run:   (driver, trace specification, driver arguments, schedule generator or None)
"""
TRAIN = [("MCTraining", "MCTraining_non1", "ok", 300), ("MCTraining", "MCTraining_seq1", "ok", 300), ("MCTraining", "MCTraining_ts1", "ok", 300)]
TRAIN_T = TRAIN + [("MCTraining", "MCTraining_non2", "ok", 1500), ("MCTraining", "MCTraining_seq2", "ok", 900), ("MCTraining", "MCTraining_ts2", "ok", 1500)]
SESS = [("MCSession", "MCSession", "ok", 300), ("MCSession", "MCSession_legacy", "violated", 300)]
SESS_T = SESS + [("MCSession", "MCSession_big", "ok", 600)]
WAIT = [("WaitModel", "WaitModel", "ok", 300), ("WaitModel", "WaitModel_legacy", "violated", 300)]
WAIT_T = WAIT + [("WaitModel", "WaitModel_big", "ok", 900)]
TS = [("TimeSeries", "TimeSeries", "ok", 300), ("TimeSeries", "TimeSeries_still", "violated", 300)]
TS_T = TS + [("TimeSeries", "TimeSeries_big", "ok", 600)]
ARCH = [("MCArch", "MCArch", "ok", 300)]
ARCH_T = ARCH + [("MCArch", "MCArch_big", "ok", 600)]
CHAIN = [("MCLayers", "MCLayers", "ok", 300)] + [("MCLayers", "MCLayers_" + x, "violated", 300) for x in ("last", "transposed", "unshared")]
CHAIN_T = ARCH_T + CHAIN + [("MCLayers", "MCLayers_big", "ok", 900)]
REC = [("MCRecurrent", "MCRecurrent", "ok", 300), ("MCRecurrent", "MCRecurrent_built", "violated", 300), ("MCRecurrent", "MCRecurrent_memory", "violated", 300)]
REC_T = REC + [("MCRecurrent", "MCRecurrent_big", "ok", 600)]
TWINS = [("MCTwins", "MCTwins", "ok", 300)] + [("MCTwins", "MCTwins_" + x, "violated", 300) for x in ("shared", "lost", "reset")]
TWINS_T = TWINS + [("MCTwins", "MCTwins_big", "ok", 900)]
SOFT = [("MCSoftmax", "MCSoftmax", "ok", 300)] + [("MCSoftmax", "MCSoftmax_" + x, "violated", 300) for x in ("base", "undivided", "swapped")]
SOFT_T = SOFT + [("MCSoftmax", "MCSoftmax_big", "ok", 900)]
NORM = [("MCNormalize", "MCNormalize", "ok", 300)] + [("MCNormalize", "MCNormalize_" + x, "violated", 300) for x in ("zero", "first", "own")]
NORM_T = NORM + [("MCNormalize", "MCNormalize_big", "ok", 900)]
ACTI = [("MCActivation", "MCActivation", "ok", 300)] + [("MCActivation", "MCActivation_" + x, "violated", 300) for x in ("table", "gauss", "slope")]
ACTI_T = ACTI + [("MCActivation", "MCActivation_big", "ok", 900)]
FILE = [("MCFile", "MCFile", "ok", 300)] + [("MCFile", "MCFile_" + x, "violated", 300) for x in ("inplace", "unchecked", "removes", "eager")]
FILE_T = FILE + [("MCFile", "MCFile_big", "ok", 900)]
DATA = [("MCDataSet", "MCDataSet", "ok", 300)] + [("MCDataSet", "MCDataSet_" + x, "violated", 300) for x in ("back", "unnoticed")]
DATA_T = DATA + [("MCDataSet", "MCDataSet_big", "ok", 900)]
SUMM = [("MCSummary", "MCSummary", "ok", 300)] + [("MCSummary", "MCSummary_" + x, "violated", 300) for x in ("swapped", "units")]
SUMM_T = SUMM + [("MCSummary", "MCSummary_big", "ok", 900)]
PICT = [("MCPicture", "MCPicture", "ok", 300)] + [("MCPicture", "MCPicture_" + x, "violated", 300) for x in ("square", "columns")]
PICT_T = PICT + [("MCPicture", "MCPicture_big", "ok", 900)]
def kind(models, k): return [m for m in models if m[1].startswith("MCTraining_" + k)]
TR = lambda p: ("drv_training", "TrainingTrace", ["--prop", p], None)
LA = lambda p: ("drv_layers", "LayersTrace", ["--prop", p], None)
RE = lambda p: ("drv_recurrent", "RecurrentTrace", ["--prop", p], None)
TW = lambda p: ("drv_twins", "TwinsTrace", ["--prop", p], None)
SE = lambda p, gen=True: ("drv_session", "SessionTrace", ["--prop", p], "SessionGen" if gen else None)

CHECKS = {
    "C01": dict(quick=SESS, thorough=SESS_T, runs=[SE("C01")]),
    "C02": dict(quick=SESS, thorough=SESS_T, runs=[SE("C02")]),
    "C03": dict(quick=TRAIN, thorough=TRAIN_T, runs=[TR("C03")]),
    "C04": dict(quick=WAIT + kind(TRAIN, "non"), thorough=WAIT_T + kind(TRAIN_T, "non"), runs=[("drv_wait", "WaitTrace", [], None), TR("C04"), SE("C04", False)]),
    "C05": dict(quick=kind(TRAIN, "non"), thorough=kind(TRAIN_T, "non"), runs=[TR("C05")]),
    "C06": dict(quick=kind(TRAIN, "seq"), thorough=kind(TRAIN_T, "seq"), runs=[TR("C06")]),
    "C07": dict(quick=kind(TRAIN, "ts") + TS, thorough=kind(TRAIN_T, "ts") + TS_T, runs=[TR("C07")]),
    "C08": dict(quick=TRAIN + SESS[:1], thorough=TRAIN_T + SESS_T[2:], runs=[TR("C08"), SE("C08", False)]),
    "C09": dict(quick=NORM, thorough=NORM_T, runs=[("drv_normalize", "NormalizeTrace", [], None)]),
    "C10": dict(quick=kind(TRAIN, "non"), thorough=kind(TRAIN_T, "non"), runs=[TR("C10")]),
    "C11": dict(quick=TRAIN, thorough=TRAIN_T, runs=[TR("C11")]),
    "C12": dict(quick=TRAIN, thorough=TRAIN_T, runs=[TR("C12"), SE("C12", False)]),
    "C13": dict(quick=TWINS, thorough=TWINS_T, runs=[TW("C13")]),
    "C14": dict(quick=TWINS, thorough=TWINS_T, runs=[TW("C14")]),
    "C15": dict(quick=TWINS, thorough=TWINS_T, runs=[TW("C15")]),
    "C16": dict(quick=ARCH, thorough=ARCH_T, runs=[LA("C16")]),
    "C17": dict(quick=CHAIN, thorough=CHAIN_T, runs=[LA("C17"), RE("C17")]),
    "C18": dict(quick=CHAIN, thorough=CHAIN_T, runs=[LA("C18"), RE("C18")]),
    "C19": dict(quick=REC, thorough=REC_T, runs=[RE("C19")]),
    "C20": dict(quick=ARCH, thorough=ARCH_T, runs=[("drv_arch", "ArchTrace", ["--prop", "C20"], None)]),
    "C21": dict(quick=TWINS, thorough=TWINS_T, runs=[TW("C21")]),
    "C22": dict(quick=CHAIN, thorough=CHAIN_T, runs=[LA("C22")]),
    "C23": dict(quick=CHAIN, thorough=CHAIN_T, runs=[LA("C23")]),
    "C24": dict(quick=SOFT, thorough=SOFT_T, runs=[("drv_softmax", "SoftmaxTrace", ["--prop", "C24"], None)]),
    "C25": dict(quick=ACTI, thorough=ACTI_T, runs=[("drv_activation", "ActivationTrace", [], None)]),
    "C27": dict(quick=FILE, thorough=FILE_T, runs=[("drv_file", "FileTrace", [], None)]),
    "C28": dict(quick=DATA, thorough=DATA_T, runs=[("drv_data", "DataTrace", [], None)]),
    "C29": dict(quick=SUMM, thorough=SUMM_T, runs=[("drv_report", "ReportTrace", ["--prop", "C29"], None)]),
    "C30": dict(quick=PICT, thorough=PICT_T, runs=[("drv_report", "ReportTrace", ["--prop", "C30"], None)]),
}

_T = "Training.tla (epochs, batches, presentation order, evaluations, statistics, stop criteria, automatic saves, refusals) is checked with TLC on small data sets, exhaustively for non-temporal, sequential and time-series data; recorded executions of the real train/evaluate/shuffle/save code (generated histories, a recording layer in place of the layers) are run through the same machine by TLC, every event must be allowed."
_S = "Session.tla (one action per access to the shared flags of the two threads) is checked with TLC, every interleaving of up to 4 (thorough: 6) calls, safety and liveness; every schedule of calls and thread advances generated from it up to 6 (thorough: 9) steps is replayed in the real library with the training thread held at each interaction, plus free-running histories, and every recorded trace is validated against the machine."
_L = "Arch.tla states which input each weight of an output reads (windows), checked with TLC over all small architectures; Layers.tla derives from that one relation the outputs, the errors handed back and the gradient steps, in fixed-point integers; MCLayers.tla checks with TLC, over all chains of two small layers of every kind, that errors handed back and gradient steps are the exact derivatives of the outputs (so no formula is trusted) and that three wrong ones are not; random chains of real layers with chosen parameters are predicted with, trained, copied and reloaded, everything that flows between layers is recorded and compared by TLC, element by element."
_R = "Recurrent.tla states the memory of a recurrent unit, what a reset forgets and the gradient steps of recurrent and gated units; that outputs after a reset do not depend on the past is checked with TLC; sequences through real recurrent and gated layers (with resets, trainings, copies and reloads in between) are recorded and compared by TLC, element by element, under the specification and under each listed deviation of it."
_W = "Twins.tla treats a network as a value known only by its history; MCTwins.tla checks with TLC that an implementation which keeps components in memory cells satisfies it exactly when copies and files carry every component and share none; recorded operations on several real networks living side by side (random architectures of every layer type, optimisers, all problem kinds; copy, save, load, automatic save, destroy, predict, evaluate, learn, change a weight or rate) are judged by TwinsTrace.tla: equal histories must show equal parameters, statistics and results, and nothing changes but the network operated on."
NOTES = {
    "C01": _S, "C02": _S, "C03": _T,
    "C04": "Wait.tla gives the meaning of every criterion tree; WaitModel.tla checks the library's folding of && and || into one record against it, exhaustively for small trees; criteria built with the real operators (systematic and random trees, both operand orders) are evaluated by the real code on observations around every threshold and compared by TLC; stops of real blocking trainings and waits on real background trainings are validated too.",
    "C05": _T, "C06": _T, "C07": "TimeSeries.tla: coverage over R+1 consecutive epochs, checked for every length and R within bounds; and " + _T, "C08": _T + " Ill-fitting calls at every point of background and blocking trainings are validated against Session.tla.", "C10": _T + " Statistics are recomputed exactly in integers from the recorded outputs.", "C11": _T, "C12": _T + " Background trainings meeting a non-finite output are validated against Session.tla.",
    "C09": "Normalize.tla: a column is mapped by the one affine map its training extrema define, the test column by the same, ranks stay; MCNormalize.tla checks with TLC, over all small columns, that the library's column-by-column algorithm satisfies it and that three wrong ones (extrema from zero, from the first row, from the test set's own values) do not; normalizations of real data (three natures, positive and negative values, extrema anywhere, units from 2^-40 to 2^60, repeated, after shuffles) are judged by NormalizeTrace.tla.",
    "C22": _L + " The silenced outputs of each pass are read from the recorded values: same choice forwards and backwards, one choice per datum or sequence, (1 - p) in use, every output reached, frequency within 6 standard deviations over many redraws.",
    "C24": "Softmax.tla defines the distribution exactly for raw outputs that are multiples of ln 2 (powers of two); MCSoftmax.tla checks with TLC that it sums to one, keeps order and ties and does not move under a common addition, and that three wrong variants fail to; real layers (dense, recurrent, gated, convolution ...) with chosen raw outputs from tiny to huge, in training and in use, are judged by SoftmaxTrace.tla.",
    "C25": "Activation.tla defines the functions and slopes in fixed-point integers; MCActivation.tla derives with TLC that its tables are the sigmoid and the gaussian (addition theorems, values at zero), that the slopes are the differences of the functions and that the far ends join, and that wrong tables and slopes are noticed; outputs and learning steps of real neurons (built, copied, loaded; dense, convolution, locally connected) at arguments from 1e-30 to 1e38 are judged by ActivationTrace.tla.",
    "C27": "File.tla states which versions the file at a path may hold after a save that was done, was refused or died; MCFile.tla checks with TLC that writing beside the file, checking and renaming satisfies it for every point of failure or death, and that writing in place, not checking, removing first and a loader that takes a cut number do not; real saves (manual and automatic) that fail at generated bytes (file size limit) or die before any call that touches files, and loads of files cut anywhere, are judged by FileTrace.tla.",
    "C29": "Summary.tla derives from Arch.tla what a summary says of a network, and how each operation changes it; MCSummary.tla checks with TLC, over all small chains of every layer type, that its lines chain, add up to the total and determine the description, and that swapped sizes or units are noticed; summaries of real networks after every step of generated histories (training, settings, copies, saves, loads) are parsed by their labels and judged by ReportTrace.tla.",
    "C30": "Picture.tla says which value each pixel shows; MCPicture.tla checks with TLC, for all small shapes, that the library's drawing loops show every value exactly once and only there, and that other column or row counts do not; pictures written by the real code for generated data and layers are read back and judged pixel by pixel by ReportTrace.tla against recorded outputs.",
    "C28": "DataSet.tla states which descriptions of data are well-formed and what the data set hands back; MCDataSet.tla checks with TLC, over all small descriptions, that the library's step-by-step construction accepts exactly those and marks the sequences, and that two incomplete ones do not; generated data (each kind, each way of being ill-formed) are built, read back through every accessor, shuffled and unshuffled, and judged by DataTrace.tla.",
    "C16": _L, "C17": _L, "C18": _L + " " + _R, "C13": _W, "C14": _W, "C15": _W, "C21": _W, "C19": _R, "C20": "Arch.tla: which descriptions are refused, and the shape, number of units and of weights of every layer of the others; checked with TLC over all small architectures; random and systematic descriptions (valid, invalid, huge) are built by the real constructor and judged by ArchTrace.tla.", "C23": _L,
}
NOT_APPLICABLE = {
    "C26": "convergence is a statement about real-valued optimisation from random parameters; it has no finite-state abstraction that is not the computation itself",
}
