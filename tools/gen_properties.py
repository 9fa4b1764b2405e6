#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as code so that the wording is reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
N="src/neural_network/"; SN=N+"StraightforwardNeuralNetwork.cpp"; NN=N+"NeuralNetwork.cpp"; L=N+"layer/"; O=N+"optimizer/"; D="src/data/"
prop("C01","Stopping a background training always ends it",
 "Whenever a background training is asked to stop (by a stop call, by starting another training, or by destroying the network), the call returns, at most the training step already in flight completes and no further training step begins afterwards, and the network is then idle and can be trained again. This holds wherever the request falls: before the background thread has run at all, during a training step, during an evaluation, or after the training already ended by itself.",
 ["schedules","histories"],"every interleaving of the caller's start/stop/restart/destroy calls with the background thread's steps, and every history of such calls",
 "The tests start a training, wait a fixed time and stop it: one schedule per test, never the window between start and the thread's first step.",
 [SN,"include/snn/neural_network/StraightforwardNeuralNetwork.hpp"],
 [("startTrainingAsync/stopTrainingAsync",SN),("continueTraining",SN),("~StraightforwardNeuralNetwork",SN)],
 state=[{"name":"wantToStopTraining/isIdle/thread","meaning":"stop request, idle flag and the background thread"}])
prop("C02","One training at a time, and no operation on a network being trained",
 "At any time at most one training modifies a network: while one runs, a second blocking training, a manual save and a copy are refused with an error and change nothing, and starting another background training first ends a running background one (next to a blocking training of another thread it is refused). The network reports that it is training from the moment the start call returns until the training is over, and every refused operation is accepted again once it is idle.",
 ["schedules","histories"],"every history of public calls interleaved with every progress of the background training",
 "Tests call each operation on an idle network, or one at a time during a training; they never combine them with the thread's schedule.",
 [SN],[("train/saveAs/copy constructor guards",SN),("isTraining",SN)])
prop("C03","Training and evaluation follow the announced epoch schedule",
 "A training limited to N epochs runs exactly N epochs, each presenting exactly floor(size/batch) batches (the reported number of trainings grows by one for each batch trained on), with one evaluation before the first epoch and one after every f-th epoch, and none at all when the evaluation frequency is 0. Every evaluation presents every test datum exactly once in the given order and never changes a parameter, and after the training the network is idle.",
 ["inputs","configurations"],"every training and test set size, batch size, evaluation frequency, epoch limit, problem and data nature",
 "The tests only compare final accuracies; a skipped last batch, an extra epoch or a missed evaluation leaves them passing.",
 [SN,NN],[("trainSync",SN),("evaluate",SN),("trainOnce",NN)])
prop("C04","Stop criteria combine as written",
 "A training or a wait ends as soon as its stop criterion holds and not before: a single criterion on its own threshold (epochs completed, accuracy reached, mean absolute error reached, time elapsed), an 'or' combination when any one of its criteria holds, an 'and' combination when all of them hold, zero thresholds included. Mixing 'and' with 'or' is refused whatever the order of the operands.",
 ["inputs","programs"],"every expression of up to several criteria, in every order and grouping, and every reachable value of epoch, accuracy, error and elapsed time",
 "The tests use a handful of single criteria and two combinations on real training runs, with loose time assertions.",
 [N+"Wait.cpp",SN],[("Wait::isOver",N+"Wait.cpp"),("Wait::operator|| and &&",N+"Wait.cpp"),("continueTraining/waitFor",SN)])
prop("C05","Each epoch feeds every datum once, with its own label",
 "For data without temporal order, each shuffle is a permutation of the training set, every training step receives the average of consecutive data of that permutation together with the average of exactly the same data's expected outputs, and within an epoch no datum is used twice (only the remainder of the division by the batch size is left out). Every accessor associates a datum with its own label after any sequence of shuffles, unshuffling restores the given order, and neither training nor evaluation alters the data.",
 ["inputs","histories"],"every set size, batch size, problem type and sequence of shuffle, unshuffle and training operations",
 "Tests shuffle a few sets and look at the order once; the pairing of inputs with labels inside batches is never observed.",
 [D+"Data.cpp",D+"ProblemComposite.cpp",D+"CompositeForNonTemporalData.cpp",D+"CompositeForClassification.cpp"],
 [("getTrainingData",D+"Data.cpp"),("getTrainingOutputs",D+"ProblemComposite.cpp"),("shuffle/unshuffle",D+"CompositeForNonTemporalData.cpp")])
prop("C06","Sequences are trained whole, in order, from a fresh state",
 "For sequential data, each epoch presents every sequence exactly once, each contiguous and in its own order, whatever the order of the sequences; the temporal state is reset exactly at the first datum of each sequence, in training and in evaluation. Evaluation presents all test data in order and scores exactly the last datum of each test sequence.",
 ["inputs","histories"],"every number and length of training and test sequences and every number of shuffles",
 "The tests have one or two fixed sequence layouts and look only at the resulting accuracy.",
 [D+"CompositeForTemporalData.cpp",D+"Data.cpp",SN],[("shuffle",D+"CompositeForTemporalData.cpp"),("flatten",D+"Data.cpp"),("evaluate",SN)])
prop("C07","Time-series windows are consecutive and cover the series",
 "For a time series with R recurrences, every datum trained on in an epoch is preceded in the presentation by the R data that precede it in the series (fewer only for the first ones of the series), starting from a reset state, and no datum is trained on twice in one epoch. Over any R+1 consecutive epochs every datum of the series is trained on, and evaluation presents the test series in order with a single reset at its start.",
 ["inputs","histories"],"every series length, number of recurrences and number of consecutive epochs",
 "Two unit tests check fixed lengths and one or two shuffles; the rotation over R+1 epochs and short series are not reached.",
 [D+"CompositeForTimeSeries.cpp",D+"Data.cpp"],[("shuffle",D+"CompositeForTimeSeries.cpp"),("trainSync",SN)])
prop("C08","Data that do not fit the network are refused before anything changes",
 "A training or an evaluation whose data have another input or output size than the network, or whose batch size is below 1, above the size of the training set, or different from 1 for temporal data, is refused with an error before any datum is presented, leaving the network idle and its parameters and statistics untouched. Data that fit are accepted.",
 ["inputs","configurations"],"every combination of network format, data format, nature, set size and batch size, for blocking training, background training and evaluation",
 "The tests never pass ill-formatted data to every entry point.",
 [SN,D+"Data.cpp"],[("validData",SN),("Data constructor and isValid",D+"Data.cpp")])
prop("C09","Normalization maps every column onto the requested range",
 "Normalizing to [min, max] maps every input column that is not constant in the training set (its extent being a normal single-precision number) affinely, using the training set's extrema, so that the training column spans [min, max], and applies the very same map to the test set, all up to floating-point rounding and without touching labels, order or shape. Two data equal before in a column remain equal and the order of values is preserved.",
 ["inputs"],"every numbers of rows and columns, value distribution (negative values, extreme at first or last row) and target range",
 "One unit test normalizes one small matrix.",
 [D+"Data.cpp"],[("normalize",D+"Data.cpp")])
prop("C10","Evaluation statistics equal their definitions",
 "After an evaluation, accuracy, per-class-averaged recall, F1 score, mean absolute error and root mean squared error are exactly the values their definitions give for the presented outputs and the expected outputs, for classification, multiple classification and regression, including negative outputs, outputs on the threshold and classes without any datum. Only the latest evaluation counts, whatever happened before.",
 ["inputs","histories"],"every number of outputs and test data, every vector of outputs and expectations, every separator and precision, any sequence of evaluations",
 "Tests check a few confusion matrices with outputs between 0 and 1 and never mean and squared errors over several outputs.",
 [N+"StatisticAnalysis.cpp",NN],[("evaluateOnceFor*",N+"StatisticAnalysis.cpp"),("compute*",N+"StatisticAnalysis.cpp")])
prop("C11","Best-so-far statistics and automatic save track the best evaluation",
 "The reported best accuracy, weighted rate and F1 score are the maxima, and the best errors the minima, over all evaluations made so far. With automatic saving on, the file is written exactly at the evaluations whose accuracy is strictly better than at all earlier evaluations and holds the network as it was at that evaluation; with it off, no file is written.",
 ["histories","inputs"],"every sequence of evaluation results (rising, falling, equal) within a training and across trainings",
 "Tests only check that a file exists after a training.",
 [N+"StatisticAnalysis.cpp",SN],[("stopTesting",N+"StatisticAnalysis.cpp"),("evaluate/saveSync",SN)])
prop("C12","A non-finite output stops the training and is reported",
 "If the network outputs a value that is not finite, in training or in evaluation, the training ends without any further parameter update, the network is idle and reports the anomaly, and waiting for the training returns; an evaluation that it cuts reports no result (NaN) and leaves the best statistics as they were. Finite outputs, however large, small or negative, are never reported as an anomaly.",
 ["inputs","histories","schedules"],"every step at which a NaN or an infinity can appear, every sign and magnitude of finite outputs",
 "One test makes a network diverge; the step at which it happens is not controlled, nor is the absence of false reports.",
 [NN,SN],[("output/outputForTraining/backpropagationAlgorithm",NN),("trainSync/evaluate/waitFor",SN)])
prop("C13","Saving and loading preserve a network completely",
 "A network loaded from a file equals the saved one and is indistinguishable from it: same outputs for every input, same statistics and counters, and the same evolution under any further training, for every kind of layer, optimizer and history. A network saved automatically during a training loads as an idle network that can be trained.",
 ["configurations","histories"],"every architecture over all layer kinds and layer optimizers, and every history of training, evaluation, prediction and saving before and after",
 "The tests save and load one architecture and compare equality; later evolution is not compared.",
 ["include/snn/neural_network/NeuralNetwork.hpp","include/snn/neural_network/layer/neuron/Neuron.hpp",SN],
 [("serialize members","include/snn/neural_network"),("saveAs/loadFrom",SN)])
prop("C14","A copy equals its original and is independent of it",
 "A copied network equals its original, produces the same outputs and evolves identically under the same operations; afterwards, no operation on either one (training, evaluation, prediction, parameter or optimizer change, destruction) affects the other.",
 ["configurations","histories"],"every architecture and every interleaving of operations on the copy and the original",
 "Tests copy one or two architectures and train one of them once.",
 [NN,L+"*.cpp","include/snn/neural_network/layer/Layer.tpp"],[("copy constructors and clone",NN),("Layer copy constructor","include/snn/neural_network/layer/Layer.tpp"),("Dropout clone",O+"Dropout.cpp")])
prop("C15","Equality distinguishes networks that differ",
 "Two networks with the same layers, layer shapes, activations, optimizers, parameters and history compare equal, and networks that differ in any single one of their layers, layer shapes, activations, optimizer settings or parameters compare different, in both directions. Networks that compare equal learn and predict alike from then on. Inequality is always the negation of equality, and comparing never fails, whatever the layer kinds.",
 ["configurations"],"every pair of networks that differ in one attribute, over all layer kinds and layer optimizers",
 "Tests compare a few pairs of networks.",
 [NN,L+"*.cpp",O+"*.cpp"],[("operator== of networks, layers, neurons, optimizers",NN)])
prop("C16","Each layer output depends on exactly its own window of inputs",
 "Every output of a fully connected, convolution, locally connected or max-pooling layer is the activation of the weighted sum (or the maximum) over exactly the inputs of its own window and channels with its own filter's weights and bias, missing inputs of a partial window counting as nothing; the declared output shape and the next layer's input match the number of outputs. This holds in one and two dimensions, for non-square inputs, several channels and filters, and any chain of layers.",
 ["configurations","inputs"],"every input shape, kernel size, number of channels, filters and neurons, weights and inputs",
 "The tests use mostly square inputs, one channel or one filter, where wrong index computations coincide with the right ones.",
 [L+"Convolution1D.cpp",L+"Convolution2D.cpp",L+"LocallyConnected1D.cpp",L+"LocallyConnected2D.cpp",L+"MaxPooling1D.cpp",L+"MaxPooling2D.cpp","include/snn/neural_network/layer/SimpleLayer.tpp",L+"LayerFactory.cpp"],
 [("buildKernelIndexes/computeOutput",L),("LayerFactory::build",L+"LayerFactory.cpp")])
prop("C17","Errors flow back to exactly the inputs that caused them",
 "The error a layer hands back for each of its inputs is the sum, over the outputs whose window contains that input, of the output's error times the activation's slope at that output times the connecting weight (for pooling, the error of the output whose maximum it is, once); inputs in no window get zero. Multi-layer training propagates these errors layer by layer down to the first layer, starting from twice the difference between expected and actual outputs.",
 ["configurations","inputs"],"every layer kind, shape, weights, inputs and errors, and every chain of layers",
 "Tests check that training improves results, which it also does with partly wrong errors.",
 [L+"*.cpp",NN,"include/snn/neural_network/layer/SimpleLayer.tpp"],[("computeBackOutput",L),("backpropagationAlgorithm",NN)])
prop("C18","Every training step applies the gradient step to every parameter",
 "One training step changes every weight and bias by learning rate times error times slope times its own input (averaged over the positions sharing it), plus momentum times its previous change, and changes nothing else. This holds for the first layer as for the others, at every position of a shared filter, for any number of consecutive steps, and is not disturbed by predictions or evaluations made between the steps.",
 ["inputs","histories","configurations"],"every layer kind, input, error, learning rate, momentum and sequence of training steps interleaved with predictions",
 "Tests look at convergence; a frozen bias, a missing momentum term or an input of another position only slows it.",
 [O+"StochasticGradientDescent.cpp",L+"neuron/SimpleNeuron.cpp",L+"neuron/CircularData.cpp",L+"Convolution1D.cpp",L+"Convolution2D.cpp"],
 [("updateWeights",O+"StochasticGradientDescent.cpp"),("train/backOutput",L+"neuron/SimpleNeuron.cpp")])
prop("C19","Recurrent layers carry their previous output and forget it on reset",
 "A recurrent neuron's output is its activation of the weighted inputs plus its own previous output times its recurrent weight plus its bias, and the previous output counts as zero when the caller resets the temporal state; a gated unit combines its previous and candidate outputs through its gates in the same way. Hence after a reset the outputs for a sequence depend only on the sequence and the parameters, not on anything computed earlier.",
 ["histories","inputs"],"every sequence of inputs and resets, before and after training steps",
 "Tests train recurrent networks on fixed tasks; dependence on earlier calls is never compared.",
 [L+"neuron/RecurrentNeuron.cpp",L+"neuron/GatedRecurrentUnit.cpp","src/neural_network/layer/SimpleLayer.cpp"],
 [("RecurrentNeuron::output/reset",L+"neuron/RecurrentNeuron.cpp"),("GatedRecurrentUnit::output",L+"neuron/GatedRecurrentUnit.cpp")])
prop("C20","Architectures are either built as described or refused",
 "Building a network from a description either yields a network whose layers, shapes, numbers of inputs, outputs, neurons and parameters are exactly those the description implies, or raises an error; it never crashes and never yields anything else. Refused are exactly the ill-formed ones: no input first or an input elsewhere, no layer or more than 999 of them, an empty size, too large sizes (more than 2073600 values of the network's input, more than 1000000 inputs or neurons of a layer or weights of a neuron), a filter layer whose kernel is larger than its input or on more than three dimensions, a learning rate not strictly between 0 and 1, a momentum not between 0 and 1.",
 ["configurations"],"every sequence of layer descriptions with every shape and size, valid or not, and every optimizer setting",
 "Tests build some valid architectures and a few refused ones.",
 [L+"LayerFactory.cpp",NN,O+"StochasticGradientDescent.cpp"],[("LayerFactory::build",L+"LayerFactory.cpp"),("isValid",NN)])
prop("C21","The predicted class is the largest output, and predicting changes nothing",
 "The predicted class is the index of the largest output (the first one on ties), whatever the sign of the outputs. For networks without recurrent layers, predicting or evaluating any number of times, in any order, gives the same outputs for the same inputs and leaves the parameters and any later training unchanged.",
 ["inputs","histories"],"every output vector and every interleaving of predictions and evaluations with training steps",
 "Tests predict on outputs between 0 and 1 and do not interleave predictions with training.",
 [SN,NN],[("computeCluster/computeOutput",SN)])
prop("C22","Dropout silences whole outputs in training and scales them in use",
 "With a dropout of p, each training pass either passes an output of the layer unchanged or replaces it by zero, with frequency p, and the outputs silenced in the forward pass are exactly those whose error is silenced in the matching backward pass; when not training, every output is scaled by (1 - p) and none is silenced. The choice is redrawn at the start of each datum or sequence, is kept within a sequence, and covers every output of the layer.",
 ["configurations","histories","inputs"],"every dropout value, layer kind and number of outputs, and sequence of passes",
 "Dropout is random: the tests only check overall rates on one layer.",
 [O+"Dropout.cpp","include/snn/neural_network/layer/Layer.tpp"],[("applyAfterOutputFor*/applyBeforeBackpropagation",O+"Dropout.cpp")])
prop("C23","Layer error modifiers apply exactly once, in order, in training only",
 "An error multiplier multiplies, and the L1 and L2 regularizations add to, every incoming error of their layer (the regularization term being its coefficient times the neurons' average sum of absolute, or squared, weights), each exactly once per training step, in the declared order, for the first layer as for the others; they never alter outputs. After copying or reloading a network they act on the new network's own weights.",
 ["configurations","histories"],"every list of layer optimizers on every layer kind and position, in originals, copies and reloaded networks",
 "Tests only train with them and check accuracy.",
 [O+"L1Regularization.cpp",O+"L2Regularization.cpp",O+"ErrorMultiplier.cpp","include/snn/neural_network/layer/Layer.tpp"],
 [("applyBeforeBackpropagation",O),("Layer::backOutput/train","include/snn/neural_network/layer/Layer.tpp")])
prop("C24","Softmax outputs form a probability distribution",
 "A layer with softmax outputs non-negative values that sum to one and keep the order of the layer's raw outputs, in training and in use, whatever the magnitude and sign of the raw outputs; equal raw outputs get equal values, adding a constant to all raw outputs changes nothing, and a raw output larger by ln 2 gets twice the value.",
 ["inputs","configurations"],"every number of outputs and every magnitude of raw outputs",
 "Tests use small raw outputs on one layer size.",
 [O+"Softmax.cpp"],[("applyAfterOutputFor*",O+"Softmax.cpp")])
prop("C25","Activation functions and slopes are those of their definitions",
 "Each activation function is the one its name says, sigmoid 1/(1+exp(-x)), improved sigmoid (the same plus x/20), tanh, ReLU, GELU (x times the sigmoid of 1.702 x), gaussian exp(-x^2) and identity, and the slope that learning applies at an argument is the derivative of that function there (at the corner of ReLU: either one-sided value), for every argument up to 1e38 in magnitude and to within 1/2048 (of the value, where that exceeds 1), in a built, a copied and a loaded network alike.",
 ["inputs","configurations"],"every activation, layer kind and argument, tiny, ordinary or huge, of both signs",
 "Tests evaluate each function at a few points.",
 ["include/snn/neural_network/layer/neuron/activation_function/*.hpp"],[("function/derivative","include/snn/neural_network/layer/neuron/activation_function")])
prop("C26","Training converges on learnable problems",
 "On a learnable problem, enough epochs of training with a suitable learning rate bring the error below any given attainable level.",
 ["inputs","configurations"],"every learnable data set and suitable hyper-parameters","Tests train a few fixed problems with a fixed seed.",
 [SN,O+"StochasticGradientDescent.cpp"],[("trainSync",SN)])
prop("C27","A saved file holds a complete network, or loading it is refused",
 "A save that returns has written the whole network; one that cannot (no space left) raises an error. At every moment of a save, including when the process dies in it, the file at the path is the one that was there before or the new one, complete. Loading a file that is missing, cut at any point, or not a saved network raises an error: it never crashes nor yields another network than the one saved.",
 ["crash points","histories","inputs"],"every byte at which a write can fail, every moment at which the process can die, every prefix of every saved file, manual and automatic saves, every layer kind, network size and earlier content of the path",
 "The tests save and load complete files on a working disk.",
 [SN],[("saveSync/loadFrom",SN)])
prop("C28","Data sets are built exactly as given, or refused",
 "Building a data set succeeds exactly when its training set is not empty, each set has as many labels as inputs, all inputs of both sets have the same number of values and all label vectors too, a classification has at least two labels, sequences of inputs are given exactly for sequential data and none is empty, and a time series has at least one recurrence; otherwise an error is raised, never a crash. A built data set keeps its own copy and hands back, through every accessor, each given input with its own label vector and class (the position of its 1) and the marks of the beginnings and ends of the given sequences: the test set in the given order, the training set in the given order before a shuffle and after an unshuffle, and in an order that permutes whole data or whole sequences after a shuffle. The precision (regression) and the separator (classifications) are the ones last set, and refused for the other problems.",
 ["configurations","inputs","histories"],"every kind of problem and data, number and size of inputs, labels and sequences, well-formed or not, and every sequence of shuffles, unshuffles and settings",
 "The tests build a few well-formed data sets and two ill-formed ones.",
 [D+"Data.cpp",D+"CompositeForTemporalData.cpp",D+"CompositeForClassification.cpp"],[("Data constructors, flatten and isValid",D+"Data.cpp"),("shuffle/unshuffle",D)])
prop("C29","The summary describes the network",
 "The summary of a network states, at every moment of its life, what the network is: one entry per layer, in order, with its type, the shapes of its input and output (each layer's input has the size of the previous one's output), its number of neurons or filters, its kernel size, activation, number of parameters and optimizers with their values; the total number of parameters, which is the sum of theirs; the number of trainings done and the epoch; the name of its file; and the current learning rate and momentum. Copies and loaded networks are summarised alike, and asking changes nothing.",
 ["configurations","histories"],"every architecture and every history of trainings, settings, copies, saves and loads",
 "The tests compare the summaries of a few fresh networks with recorded text.",
 [SN,"src/neural_network/layer/*.cpp","src/neural_network/optimizer/*.cpp"],[("summary",SN)])
prop("C30","Pictures show the values they stand for",
 "For values between 0 and 1, the picture of a test datum of 1 or 3 channels (of a network whose first layer is two-dimensional) has one pixel per position with the grey level, or red, green and blue, of the values there. The picture of a two-dimensional convolution, locally connected or pooling layer has one tile per filter, of the size of its output, in rows, as square as possible without an empty row, separated by black lines; each pixel is the grey level of the output of that filter at that position for that datum; unused tiles are black. Each is one file under its own name, layers of other kinds have none, nothing else is written, and pictures of layers are refused while the network trains.",
 ["inputs","configurations"],"every shape of data and layers, number of filters, datum and moment",
 "The tests write a few pictures and look at none.",
 ["src/neural_network/NeuralNetworkVisualization.cpp",SN],[("saveAsBitmap","src/neural_network/NeuralNetworkVisualization.cpp"),("saveData2DAsBitmap/saveFilterLayersAsBitmap",SN)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
