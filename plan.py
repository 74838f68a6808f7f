"""What is model-checked, executed and validated for each property."""


class Model:
    """A bounded model with its configuration (spec/<cfg>.cfg, spec/<cfg>_t.cfg for the
    thorough tier). With script=True the lines it prints are executed on the code."""

    def __init__(self, module, cfg=None, script=False, workers=None):
        self.module, self.cfg, self.script = module, cfg or module, script
        # one worker where the printed histories depend on the order of exploration
        self.workers = workers or (1 if script else 4)


class Run:
    """One harness command whose events are validated by a trace module; script names
    the configuration of the model that printed the script."""

    def __init__(self, cmd, trace, script=None):
        self.cmd, self.trace, self.script = cmd, trace, script


PLAN = {
    "C12": dict(
        models=[Model("MC_Arith"), Model("MC_Fix"), Model("MC_Wide")],
        runs=[Run("arith", "TR_Arith")],
        note="field axioms of the specified arithmetic exhaustively over a box; every pair of the 5x5 box and "
             "seeded pairs (parts up to 700 in single, 20000 in double precision) with exponents over the representable "
             "range, in all three forms; quotients in double precision to 48 fractional bits; whole numbers up to 2^48"),
    "C13": dict(
        models=[Model("MC_Arith"), Model("MC_Fix"), Model("MC_Wide")],
        runs=[Run("polar", "TR_Arith")],
        note="involution and order laws exhaustively over a box; the 9x9 box (with both signs of zero) and seeded "
             "numbers over the representable exponent range in both precisions; moduli and phases in double precision to 48 "
             "fractional bits"),
    "C14": dict(
        models=[Model("MC_Container", script=True)],
        runs=[Run("container", "TR_Container", script="MC_Container")],
        note="every operation from every reachable shape, capacity and last step within 3x3 (model, exhaustive) is "
             "replayed on the code; seeded histories of up to 30 operations with capacities up to 40x40, and of 150 operations "
             "with more than 256 rows"),
    "C15": dict(
        models=[Model("MC_Matrix", cfg="MC_Matrix_view", script=True)],
        runs=[Run("views", "TR_Matrix", script="MC_Matrix_view")],
        note="all shapes up to 4x4 and paddings up to 2 with every index inside and two beyond the shape; "
             "seeded shapes up to 9x9, up to 80x80 and of up to 1500 rows or columns; windows beyond the shape; printed and exported "
             "text read back"),
    "C16": dict(
        models=[Model("MC_Matrix", cfg="MC_Matrix_lin", script=True), Model("MC_Fix")],
        runs=[Run("linear", "TR_Matrix", script="MC_Matrix_lin")],
        note="all pairs of shapes up to 3x3 and of lengths up to 4 (model laws and code), seeded shapes up to 12x12 "
             "and 80x80, vectors of up to 12000 elements, both precisions, exact comparison; two thirds of the exact cases at random powers of two"),
    "C17": dict(
        models=[Model("MC_Matrix", cfg="MC_Matrix_conv", script=True)],
        runs=[Run("convolution", "TR_Matrix", script="MC_Matrix_conv")],
        note="all matrix shapes up to 4x4 with all kernels up to 5x5 (linearity, flip and adjoint laws on the model, "
             "exact values on the code in both precisions); seeded shapes up to 12x12 and 76x76, kernels up to 36x36 and 3x300; two thirds of the exact cases at random powers of two"),
    "C18": dict(
        models=[Model("MC_Matrix", cfg="MC_Matrix_block", script=True), Model("MC_Matrix", cfg="MC_Matrix_ups", script=True)],
        runs=[Run("blocks", "TR_Matrix", script="MC_Matrix_block"), Run("upsampling", "TR_Matrix", script="MC_Matrix_ups")],
        note="all shapes up to 6x6 with all blocks up to 4x4 and all upsamplings of 3x3 by 3x3 with kernels up to 4x4 "
             "(partition and shape laws on the model, exact values on the code); seeded larger ones up to 72 square; two thirds of the exact cases at random powers of two"),
}
PLAN["C19"] = dict(
    models=[Model("MC_Rng", script=True)],
    runs=[Run("rng", "TR_Rng", script="MC_Rng")],
    note="exactness of the 32-bit modular arithmetic for all moduli up to 40 and the inverse and step laws at every "
         "range and step boundary of 21 limits (model); the code is started on the seeds that reach those states and "
         "on seeds over all of 128 bits, histories of up to 25 mixed draws; values in double precision exactly")
PLAN["C20"] = dict(
    models=[Model("MC_Weights"), Model("MC_Rng", script=True), Model("MC_Fix"), Model("MC_Wide")],
    runs=[Run("weights", "TR_Weights", script="MC_Rng")],
    note="bounds, directions and second moments of the formulas over a grid of generator states (model); all five "
         "methods in both precisions from boundary states and random seeds, value within 2e-5 (single) and 1.5e-11 (double "
         "precision) of the formula",
    assumptions=["the number of units is at least one"])
PLAN["C21"] = dict(
    models=[Model("MC_Weights"), Model("MC_Rng", script=True)],
    runs=[Run("creation", "TR_Weights")],
    note="histories of up to five layer creations on one seed, layers of up to 1050 units, 34 filters or kernels of 625 elements; every weight (read back through the layer's own output) "
         "is compared with the weight the specification draws at that position of the sequence")

_ACT = Model("MC_Act", script=True, workers=4)
PLAN["C07"] = dict(
    models=[_ACT, Model("MC_Fix"), Model("MC_Wide")],
    runs=[Run("values", "TR_Act", script="MC_Act")],
    note="value and symmetry laws of the specified functions on a grid (model); the code's single, in-place, dense and "
         "convolutional forms in both precisions on that grid and on seeded vectors over the exponent range and of up to 1100 elements, "
         "within 2.4e-6, and in double precision within 7.3e-12")
PLAN["C08"] = dict(
    models=[_ACT, Model("MC_Fix"), Model("MC_Wide")],
    runs=[Run("derivs", "TR_Act", script="MC_Act")],
    note="the specified derivatives are the slopes of the specified values in five directions on a grid (model); the "
         "code's derivatives in all forms against the specification (within 7e-6, in double precision also within 7.3e-12), "
         "and against differences of the code's own values")
_LOSS = Model("MC_Loss", script=True, workers=4)
PLAN["C09"] = dict(
    models=[_LOSS, Model("MC_Fix"), Model("MC_Wide")],
    runs=[Run("losses", "TR_Loss", script="MC_Loss")],
    note="squared error, softmax and cross entropy laws over all vectors of up to three small elements (model); those "
         "vectors and seeded ones of up to 4200 elements, scalars and maps, both precisions, squared errors over the "
         "whole exponent range and entropies of predictions up to the square root of the largest number",
    assumptions=["target and prediction have the same number of elements and maps"])
PLAN["C10"] = dict(
    models=[_LOSS, Model("MC_Fix"), Model("MC_Wide")],
    runs=[Run("dlosses", "TR_Loss", script="MC_Loss")],
    note="the specified derivatives are the slopes of the specified losses for all vectors of up to three small "
         "elements (model); the code's derivatives on the same and on seeded vectors of up to 4200 elements and "
         "errors over the whole exponent range, both precisions",
    assumptions=["target and prediction have the same number of elements and maps"])

_GRAD = Model("MC_Grad", script=True, workers=4)
PLAN["C01"] = dict(
    models=[_GRAD, Model("MC_Fix")],
    runs=[Run("training", "TR_Net", script="MC_Grad")],
    note="the specified step is minus the rate times the true gradient for 1080 small networks (model, by exact "
         "differences); the code's parameters after one exact step on networks of 2 to 34 layers of all kinds, read "
         "back from every layer, and the activations after each of up to 3 steps, and during 20 or 40 steps, with all activations and both losses; "
         "batches of up to 1050 points, layers of up to 300 units, points met exactly and errors that cancel, real and "
         "complex learning rates; steps of linear networks without biases also at random powers of two and far below the parameters",
    assumptions=["the batch is not empty, all inputs fit the network"])
PLAN["C02"] = dict(
    models=[_GRAD, Model("MC_Layer", script=True, workers=4), Model("MC_Fix")],
    runs=[Run("backward", "TR_Layer", script="MC_Grad")],
    note="derivative rules against exact differences on 1080 small networks (model); the code's derivatives on the "
         "layers of those networks and on seeded layers of all kinds and activations, exact or within 1e-4; histories "
         "of fitting and unfitting adjustments with all parameters read back; two thirds of the exact cases at random powers of two",
    assumptions=["interpolation kernels of pooling layers are real and have odd sides"])
PLAN["C03"] = dict(
    models=[_GRAD, Model("MC_Layer", script=True, workers=4)],
    runs=[Run("inference", "TR_Net", script="MC_Grad")],
    note="predictions, activation lists and interception at every index on the model's networks and on seeded ones of "
         "1 to 34 layers, both precisions, exact over integers and within 5e-4 with the other activations; two thirds of the exact cases at random powers of two",
    assumptions=["inputs fit the network"])
PLAN["C05"] = dict(
    models=[Model("MC_Assembly", script=True, workers=4)],
    runs=[Run("assembly", "TR_Assembly", script="MC_Assembly")],
    note="all 4096 histories of three attempts over a catalogue of eight layers (model and code), seeded histories of "
         "up to 12 attempts with layers of up to 40 maps and 300 scalars; after each attempt the counts and shapes, at the end the prediction",
    assumptions=["layers have at least one input"])
PLAN["C06"] = dict(
    models=[Model("MC_Layer", script=True, workers=4), Model("MC_Fix")],
    runs=[Run("outputs", "TR_Layer", script="MC_Layer")],
    note="545 layers of all kinds with sides up to 3 (laws on the model, exact values on the code in both precisions); "
         "seeded layers of all activations and sizes up to 1100 units or inputs, 9 channels and maps of 34x34; unsuitable inputs refused; two thirds of the exact cases at random powers of two",
    assumptions=["scalars and maps have the size the layer was created for"])
PLAN["C11"] = dict(
    models=[_LOSS, Model("MC_Fix")],
    runs=[Run("measures", "TR_Net", script="MC_Loss")],
    note="loss and class laws over all vectors of up to three small elements (model); batches of those and of seeded "
         "points (up to 1050) through networks of 1 to 3 layers in two orders, exact up to rounding; squared errors and accuracies at random powers of two",
    assumptions=["the batch is not empty, target and prediction have the same number of elements"])
PLAN["C04"] = dict(
    models=[Model("MC_Reads", script=True), Model("MC_Sched", script=True)],
    runs=[Run("reads", "TR_Runs", script="MC_Reads"), Run("schedules", "TR_Runs", script="MC_Sched")],
    note="616 histories of three reads and training steps and all 252 interleavings of two calls at the blocks of the "
         "pooling layers for nine pairs of calls (model), all forced on the code; seeded histories of up to 60 calls and of 1100 calls with 400 different inputs, "
         "each call also alone on a network of its own, and eight threads of 60 calls, all bits compared")
PLAN["C26"] = dict(
    models=[Model("MC_Run", script=True, workers=4)],
    runs=[Run("repro", "TR_Runs", script="MC_Run")],
    note="two runs along each of 117 pipelines of creations, training steps, reads and evaluations in all interleavings "
         "(model); the same pipelines and seeded longer ones on the code, repeated in the process, without the reads, in "
         "another process, by four threads at once and by twelve threads in the same run, all bits compared")
PLAN["C22"] = dict(
    models=[Model("MC_DataSet", script=True)],
    runs=[Run("sets", "TR_DataSet", script="MC_DataSet")],
    note="all 512 histories of three additions and reads (model and code), seeded histories of up to 30 and of up to 1100 points with elements of "
         "five types over all bit patterns of finite numbers; exported files, new and replacing longer ones, read back and compared bit by bit",
    assumptions=["exported points have scalar features and at least one input element"])
PLAN["C23"] = dict(
    models=[Model("MC_IdxFile", script=True)],
    runs=[Run("idx", "TR_IdxFile", script="MC_IdxFile")],
    note="all sequences of three batch sizes up to 4 on files of up to 3 records, also of unequal numbers (model and "
         "code, four forms); files of 270 and of up to 2400 records, files cut within a record and the last 22 records of files of 60000",
    assumptions=["both files have their headers and labels are below ten"])
PLAN["C24"] = dict(
    models=[Model("MC_Signal", script=True, workers=4), Model("MC_Fix")],
    runs=[Run("signals", "TR_Signal", script="MC_Signal")],
    note="size, range and noise laws from seeds of every number of waves (model); every sample of the code's clean and "
         "corrupted signals (up to 300 samples, up to 40 signals) recomputed from the seed, and the seeds afterwards exactly",
    assumptions=["at least one sample"])
PLAN["C25"] = dict(
    models=[Model("MC_Wrapper", script=True)],
    runs=[Run("wrappers", "TR_Wrapper", script="MC_Wrapper")],
    note="all sizes up to 12 with all indices up to two beyond (model and code, real and complex, both precisions); "
         "histories of reads, writes and releases of wrappers of up to 1030 elements of five types and one-hot vectors of up to 1100, compared bit by bit")
