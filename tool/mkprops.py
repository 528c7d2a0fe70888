#!/usr/bin/env python3
"""writes /verif/properties.jsonl (one property per line)"""
import json, os
L = "gegelatilib/src/"
I = "gegelatilib/include/"
props = []


def p(id, title, statement, over, q, why, files, mech, observe=None):
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                              "observe_at": observe or []}})


p("C01", "Seeded runs are reproducible",
  "Two runs with the same seed, parameters, instructions and environment take the same random decisions and build the same graphs and scores: every random decision derives from the seed the user gave. "
  "Nothing that steers the evolution depends on wall-clock time, process-wide random state, or the memory addresses at which objects happen to be allocated; time measurements only reach log output.",
  ["histories", "configurations"], "every run, seed and parameter set, on every platform and allocator",
  "a golden-file comparison of a few seeded runs on one machine cannot see dependence on addresses, time or platform libraries",
  [L + "learn/learningAgent.cpp", L + "mutator/tpgMutator.cpp", L + "mutator/rng.cpp", I + "mutator/deterministicRandom.h", L + "archive.cpp"],
  [("one seeded generator per agent, own distribution templates", I + "mutator/deterministicRandom.h"), ("sorting and draws over ordered containers", L + "mutator/tpgMutator.cpp")],
  ["LearningAgent::train", "TPGMutator::populateTPG"])
p("C02", "Parallel evaluation equals sequential evaluation",
  "Evaluating the individuals with any number of threads gives the same scores, the same archive content and the same subsequent evolution as evaluating them sequentially. "
  "Each evaluation's random seed is fixed, in order, before it is handed to a worker; a worker computes only from that seed and private copies; results and recordings are merged in evaluation order, whatever the completion order.",
  ["schedules", "configurations"], "every thread count and interleaving of workers",
  "tests compare one or two thread counts on tiny populations, whose interleavings hardly vary",
  [L + "learn/parallelLearningAgent.cpp", L + "learn/learningAgent.cpp", L + "learn/adversarialLearningAgent.cpp", I + "learn/classificationLearningAgent.h", L + "archive.cpp"],
  [("job seeds drawn from the agent generator", L + "learn/learningAgent.cpp makeJobs"), ("per-job archives merged by job index", L + "learn/parallelLearningAgent.cpp mergeArchiveMap")],
  ["LearningAgent::evaluateAllRoots"])
p("C03", "Parallel evaluation is free of data races",
  "While several threads evaluate individuals, every mutable object they share is only touched while holding the one lock that protects it, and everything else a worker modifies is private to it. "
  "All workers have ended before their results are read or anything they use is destroyed, and no lock is held forever or taken recursively.",
  ["schedules"], "all interleavings of any number of workers",
  "races need a particular interleaving; tests run without a race detector",
  [L + "learn/parallelLearningAgent.cpp", I + "learn/parallelLearningAgent.h", L + "learn/learningAgent.cpp", L + "data/dataHandler.cpp"],
  [("three mutexes guarding job queue, result map and archive map", L + "learn/parallelLearningAgent.cpp"), ("threads joined before compilation", L + "learn/parallelLearningAgent.cpp")])
p("C04", "The archive is bounded and consistent",
  "The archive never keeps more recordings than its maximum size; when full, the oldest recording is dropped first. "
  "Every kept recording can be replayed: the snapshot of the data it was made from is kept as long as a recording refers to it, identical data is stored once, each snapshot is released exactly once, and the per-program index lists exactly the kept recordings. "
  "A recording is made only with the configured probability, and an archive query that is answered 'unique' compares the candidate against every kept recording of the program set.",
  ["histories", "inputs"], "every sequence of recordings, capacities and data values",
  "tests use a handful of recordings at one capacity",
  [L + "archive.cpp", I + "archive.h"],
  [("eviction of the oldest recording with reference check", L + "archive.cpp addRecording")], ["Archive::addRecording", "Archive::clear"])
p("C05", "Validation and testing do not influence training",
  "Only training evaluations feed the archive, the per-individual evaluation records and the best-individual bookkeeping. "
  "Evaluating in validation or testing mode leaves all of those, and the graph, as they were; validation scores only reach loggers and callers.",
  ["histories", "configurations"], "any interleaving of training, validation and testing evaluations, sequential or parallel, for each kind of agent",
  "tests look at final scores, not at the state that must not change",
  [L + "learn/learningAgent.cpp", L + "learn/parallelLearningAgent.cpp", L + "learn/adversarialLearningAgent.cpp", I + "learn/classificationLearningAgent.h"],
  [("archive only passed in training mode", L + "learn/learningAgent.cpp"), ("records updated in trainOneGeneration", L + "learn/learningAgent.cpp")])
p("C06", "The graph stays structurally consistent",
  "After every graph operation, successful or refused by an exception, each edge of the graph is listed exactly once by its source among its outgoing edges and exactly once by its destination among its incoming edges, and both ends are vertices of the graph. "
  "Removing a vertex removes and frees it together with every edge attached to it; retargeting, cloning and adding edges change exactly what was asked. "
  "The root vertices are exactly the vertices without incoming edges, and actions never have outgoing edges.",
  ["histories", "inputs", "fault_sequences"], "every sequence of graph edits, including refused ones",
  "tests exercise each operation once on small graphs and rarely inspect both ends after a refused operation",
  [L + "tpg/tpgGraph.cpp", L + "tpg/tpgVertex.cpp", L + "tpg/tpgEdge.cpp", L + "tpg/tpgAction.cpp"],
  [("adjacency lists updated together with edge ends", L + "tpg/tpgGraph.cpp")])
p("C07", "Mutation keeps the graph acyclic and its teams valid",
  "Whatever the parameters and random draws, mutating a population only rewires teams created during that mutation, and only towards vertices that existed before it, so no cycle can appear. "
  "Teams keep at least two outgoing edges, never exceed the configured maximum number of outgoing edges, an edge redirected to an action goes to an existing action, and the population is refilled up to the configured number of roots.",
  ["inputs", "histories", "configurations"], "every parameter set and random sequence",
  "tests sample a few seeds; a cycle or an undersized team needs a rare draw",
  [L + "mutator/tpgMutator.cpp", I + "mutator/tpgMutator.h", I + "mutator/mutationParameters.h"],
  [("destinations drawn from the pre-existing vertices", L + "mutator/tpgMutator.cpp")])
p("C08", "Graph execution follows the best bid",
  "Executing the graph from a root follows, at each team, an outgoing edge with the highest bid, where an undefined bid counts as the lowest possible one, until an action is reached; the returned trace starts with the root, lists each vertex traversed in order and ends with the action. "
  "Each bid is the result of running that edge's own program on the current data, and every bid made while recording is offered to the archive.",
  ["inputs", "programs"], "every graph, program and data value, including undefined (NaN) bids and ties",
  "tests use three or four fixed graphs without NaN ties",
  [L + "tpg/tpgExecutionEngine.cpp", I + "tpg/tpgExecutionEngine.h"], [("evaluateTeam / executeFromRoot", L + "tpg/tpgExecutionEngine.cpp")])
p("C09", "Program execution is hermetic and ordered",
  "Running a program starts from zeroed registers, executes its lines in order skipping exactly those marked as introns, and returns the first register, so the result depends only on the program, its constants and the current data. "
  "Each line reads its operands from the sources and locations it designates and writes only its destination register.",
  ["programs", "inputs"], "every program, data source layout and previous execution",
  "tests run a few hand-written programs, mostly once per engine",
  [L + "program/programExecutionEngine.cpp", L + "program/programEngine.cpp", I + "program/programEngine.h"],
  [("reset before execution", L + "program/programExecutionEngine.cpp executeProgram"), ("operand fetch", L + "program/programEngine.cpp fetchCurrentOperands")])
p("C10", "Generated and mutated programs are well-formed",
  "Every line a program holds designates an existing instruction, an existing register as destination and, for each operand, an existing data source; out-of-range assignments are refused. "
  "Lines created or altered by mutation give each used operand a source able to provide its type, and mutation never makes a program exceed its maximum length or shrink below one line.",
  ["inputs", "configurations", "histories"], "every environment, parameter set and random sequence",
  "tests mutate a few lines in one environment",
  [L + "program/line.cpp", L + "program/program.cpp", L + "mutator/lineMutator.cpp", L + "mutator/programMutator.cpp"],
  [("range checks in line setters", L + "program/line.cpp"), ("rejection of invalid sources", L + "mutator/lineMutator.cpp")])
p("C11", "Intron marks match the program",
  "A line is marked as intron exactly when it cannot influence the program's result, by backward dependence from the result register over the registers its operands actually read. "
  "Marks are recomputed after every change to the lines before the program is used, so skipping introns never changes a result.",
  ["programs", "histories"], "every program and edit sequence",
  "tests check the marks of two programs",
  [L + "program/program.cpp", L + "mutator/programMutator.cpp", L + "mutator/tpgMutator.cpp"], [("identifyIntrons", L + "program/program.cpp")])
p("C12", "Shared programs are never modified in place",
  "A program attached to an edge that existed before a mutation is never altered: the mutated edge receives a fresh copy, and only fresh copies are changed. "
  "The new program differs from the one it was derived from whenever that is required by the mutation, and is checked against the archive before it is accepted.",
  ["histories", "configurations"], "every sharing pattern of programs between edges and every mutation history, sequential or parallel",
  "tests compare a few behaviours with one sharing pattern",
  [L + "mutator/tpgMutator.cpp"], [("copy before mutation", L + "mutator/tpgMutator.cpp mutateOutgoingEdge"), ("list of new programs", L + "mutator/tpgMutator.cpp populateTPG")])
p("C13", "Evaluation records never refer to removed individuals",
  "An individual removed from the graph by the agent is also removed from the evaluation records, and the best individual remembered by an agent is one still in the graph, or none. "
  "Starting a new training forgets every record about individuals of the previous one.",
  ["histories"], "every sequence of generations, re-initialisations and best-only reductions",
  "a stale pointer is only visible when memory is reused",
  [L + "learn/learningAgent.cpp", L + "learn/adversarialLearningAgent.cpp"], [("erase from records at decimation", L + "learn/learningAgent.cpp decimateWorstRoots")])
p("C14", "Decimation removes the worst individuals",
  "At each generation the number of roots removed is the configured ratio of the roots, rounded down, and they are those with the worst scores. "
  "Actions are never removed by decimation, keep being taken into account, and the best-scoring roots always survive.",
  ["inputs", "configurations"], "every score distribution, ratio and mix of action and team roots",
  "tests check counts for one ratio",
  [L + "learn/learningAgent.cpp", I + "learn/classificationLearningAgent.h", I + "learn/classificationLearningAgent.h"], [("decimateWorstRoots", L + "learn/learningAgent.cpp")])
p("C15", "Every evaluation follows the evaluation protocol",
  "Before every episode the environment is reset with the episode's own seed, the evaluation mode, the iteration and generation numbers; actions are only sent while the environment is not terminal and the configured number of actions is not exceeded, each being the action selected by the evaluated individual on the environment's current data. "
  "The individual's score is the mean over the configured number of episodes, and an individual already evaluated often enough is only skipped in training.",
  ["configurations", "histories"], "every kind of agent, mode, and parameter set",
  "tests use environments that ignore most of these arguments",
  [L + "learn/learningAgent.cpp", I + "learn/classificationLearningAgent.h", L + "learn/adversarialLearningAgent.cpp", I + "learn/learningEnvironment.h"],
  [("evaluateJob", L + "learn/learningAgent.cpp"), ("isRootEvalSkipped", L + "learn/learningAgent.cpp")])
p("C16", "Evaluation results combine as weighted means",
  "Combining two evaluation results of the same kind yields the mean of their scores weighted by the number of evaluations behind each, component by component, and the sum of the numbers of evaluations; combining results of different kinds is refused. "
  "Combining never changes the result that is being added, and comparing results compares their scores.",
  ["inputs", "histories"], "all scores, counts and combination orders",
  "tests combine two or three pairs of values",
  [L + "learn/evaluationResult.cpp", L + "learn/classificationEvaluationResult.cpp", L + "learn/adversarialEvaluationResult.cpp"],
  [("operator+=", L + "learn/evaluationResult.cpp")])
p("C17", "Data hashes follow the data",
  "After any operation that changes the content of a data source, its hash is recomputed before it is next used, and the hash is a function of the content and identity alone; two snapshots of the same content hash alike. "
  "Asking for the hash never changes the data.",
  ["histories", "inputs"], "every sequence of writes, resets, copies and hash queries",
  "tests query the hash after one write",
  [L + "data/dataHandler.cpp", I + "data/primitiveTypeArray.h", I + "data/primitiveTypeArray2D.h", I + "data/arrayWrapper.h", I + "data/array2DWrapper.h", I + "data/constantHandler.h"],
  [("invalidCachedHash flag", L + "data/dataHandler.cpp")])
p("C18", "Data sources refuse invalid accesses",
  "Asking a data source for a type it does not provide or for a location outside its address space throws instead of reading memory, for every kind of source and every type, including array and two-dimensional views; a view that is not bound to data throws. "
  "The address space announced for a type is the number of distinct valid locations for it, and addresses outside it are wrapped only by the documented scaling.",
  ["inputs", "configurations"], "every source kind, size, type and address",
  "tests check one invalid address for a few kinds",
  [I + "data/arrayWrapper.h", I + "data/array2DWrapper.h", I + "data/primitiveTypeArray.h", I + "data/primitiveTypeArray2D.h", I + "data/pointerWrapper.h", I + "data/constantHandler.h"],
  [("checkAddressAndType", I + "data/arrayWrapper.h")])
p("C19", "Copies are complete and memory is owned once",
  "Copying or cloning a program, line, data source, environment, evaluation result or set of parameters carries over every part of its state, and copies meant to be independent share no mutable state. "
  "Everything allocated is released exactly once, on every path, and nothing is used after being released.",
  ["histories", "inputs"], "every object and every sequence of copies, assignments and destructions",
  "tests copy simple objects and do not run with leak or use-after-free detection",
  [L + "program/program.cpp", I + "program/program.h", I + "program/line.h", I + "data/dataHandler.h", L + "learn/parallelLearningAgent.cpp", L + "tpg/tpgGraph.cpp"],
  [("copy constructors and clone methods", I + "program/program.h"), ("ownership by smart pointers", I + "tpg/tpgGraph.h")])
p("C20", "DOT export and import agree",
  "Everything the exporter writes about vertices, edges, programs, lines, instructions, operands and constants is what the importer reads back, field by field and with the same separators, so a graph exported and imported has the same teams, actions, edges, programs and constants. "
  "Importing first empties the target graph and rejects references to elements the file does not define.",
  ["inputs", "programs"], "every graph, program and environment",
  "tests round-trip one small graph",
  [L + "file/tpgGraphDotExporter.cpp", L + "file/tpgGraphDotImporter.cpp", I + "file/tpgGraphDotImporter.h"],
  [("print formats and line regular expressions", L + "file/tpgGraphDotImporter.cpp")])
p("C21", "Parameter files read and write every parameter",
  "Each learning and mutation parameter that can be read from a parameter file is stored in the field it names, with the documented type and no other field changed; the writer emits every parameter the reader understands, under the same name and from the same field. "
  "Unknown names are reported and change nothing; a missing file is refused and a malformed one is reported, without touching the parameters.",
  ["inputs", "configurations"], "every parameter and value",
  "tests read one file with every parameter",
  [L + "file/parametersParser.cpp", I + "learn/learningParameters.h", I + "mutator/mutationParameters.h"],
  [("setParameterFromString table", L + "file/parametersParser.cpp"), ("writeParametersToJson", L + "file/parametersParser.cpp")])
p("C22", "Files are checked, flushed and closed",
  "A file that cannot be opened is reported to the caller and never written to or read from; every file opened is closed exactly once on every path, including when an exporter or importer is redirected to another file or destroyed.",
  ["fault_sequences", "histories"], "every open failure and every sequence of exports and redirections",
  "tests have one unwritable file",
  [L + "file/tpgGraphDotExporter.cpp", L + "file/tpgGraphDotImporter.cpp", I + "file/tpgGraphDotExporter.h", I + "file/tpgGraphDotImporter.h", L + "codeGen/tpgGenerationEngine.cpp", L + "codeGen/programGenerationEngine.cpp"],
  [("fopen/fclose in constructors and destructors", L + "file/tpgGraphDotExporter.cpp")])
p("C23", "Generated code mirrors the execution engine",
  "The generated C code computes what the engine computes: each program becomes one function that zeroes its registers, performs the non-intron lines in order with the operands the engine would read, and returns the first register; each team selects the best bid as the engine does, and each action returns its identifier. "
  "Every program, team and action of the graph is generated exactly once and every function called is defined.",
  ["programs", "inputs"], "every graph, program and environment",
  "tests generate three or four graphs",
  [L + "codeGen/programGenerationEngine.cpp", L + "codeGen/tpgGenerationEngine.cpp", L + "codeGen/tpgSwitchGenerationEngine.cpp", L + "codeGen/tpgStackGenerationEngine.cpp", L + "data/dataHandlerPrinter.cpp"],
  [("generateCurrentLine / generateTPGGraph", L + "codeGen/")])
p("C24", "Instrumentation observes without interfering",
  "An instrumented graph executes and selects exactly as a plain one; each execution of a team, evaluation of an edge, traversal of an edge and arrival at an action is counted exactly once, on the element concerned, and the trace is recorded once. "
  "Resetting clears every counter of every element, and pruning unused elements removes exactly those never visited or traversed.",
  ["programs", "histories"], "every graph and execution sequence",
  "tests count visits on one graph",
  [L + "tpg/instrumented/tpgExecutionEngineInstrumented.cpp", L + "tpg/instrumented/tpgInstrumentedFactory.cpp", L + "tpg/instrumented/tpgVertexInstrumentation.cpp", L + "tpg/instrumented/tpgEdgeInstrumented.cpp"],
  [("overrides calling the base engine", L + "tpg/instrumented/tpgExecutionEngineInstrumented.cpp")])
p("C25", "A graph only contains elements of its factory",
  "Every vertex, edge, graph and execution engine a graph or an agent creates comes from the factory the user supplied, so an instrumented graph stays fully instrumented through mutation, cloning, import, moves and parallel evaluation. "
  "Moving or assigning a graph leaves a usable graph that keeps creating elements of the right kind.",
  ["histories", "configurations"], "every sequence of graph edits, moves and trainings with each factory",
  "tests use the default factory almost everywhere",
  [L + "tpg/tpgFactory.cpp", L + "tpg/instrumented/tpgInstrumentedFactory.cpp", L + "tpg/tpgGraph.cpp", I + "tpg/tpgGraph.h", L + "learn/learningAgent.cpp"],
  [("createTPG* factory methods", L + "tpg/tpgFactory.cpp")])
p("C26", "The environment vets instructions and orders sources consistently",
  "An environment only offers instructions all of whose operand types some available source provides, and announces the number of instructions, operands, sources and the largest address space over all of them. "
  "The order of data sources used to build and mutate programs is the one used to execute, analyse, print and generate them: registers first, then constants when there are any, then the user's sources in order.",
  ["configurations"], "every instruction set, source list, number of registers and constants",
  "tests build two environments",
  [L + "environment.cpp", I + "environment.h", I + "program/programEngine.h", L + "program/programEngine.cpp"],
  [("filterInstructionSet", L + "environment.cpp"), ("dataScsConstsAndRegs layout", I + "program/programEngine.h")])
p("C27", "Loggers see every phase once and in order",
  "For each generation every registered logger is told, in this order and exactly once, that the generation starts, that the population was built, that it was evaluated, that it was decimated, that validation was performed when enabled, and that training ended, with the generation's own number and results, for every kind of agent. "
  "Loggers never change the training state, and the cycle logger gives one verdict per generation.",
  ["histories", "configurations"], "every agent, parameter set and logger combination",
  "tests check the text of one logger",
  [L + "learn/learningAgent.cpp", L + "log/laBasicLogger.cpp", L + "log/laPolicyStatsLogger.cpp", L + "log/cycleDetectionLALogger.cpp", L + "log/laLogger.cpp"],
  [("logger callbacks in trainOneGeneration", L + "learn/learningAgent.cpp")])
p("C28", "Instructions check and use their operands",
  "An instruction executed with operands of the wrong number or type does not compute on them, and one executed with the right operands computes on each of them, in their declared order. "
  "The number and types of operands an instruction announces are those it uses, for plain, array and user-supplied function instructions alike, and instruction sets refuse out-of-range indexes and know their largest number of operands.",
  ["inputs", "programs"], "every instruction kind, operand list and data source",
  "tests execute each instruction on one operand list",
  [I + "instructions/lambdaInstruction.h", I + "instructions/addPrimitiveType.h", I + "instructions/multByConstant.h", L + "instructions/instruction.cpp", L + "instructions/set.cpp"],
  [("checkOperandTypes", L + "instructions/instruction.cpp"), ("execute", I + "instructions/lambdaInstruction.h")])
p("C30", "Random draws stay in range and index what they are drawn for",
  "A draw between two bounds stays between them, for the whole range of seeds, and setting the seed fully determines the sequence. "
  "Every random choice of an element is drawn between zero and the number of elements minus one of the very collection it indexes, and never from an empty collection.",
  ["inputs", "histories", "configurations"], "all seeds, bounds and collection sizes",
  "tests draw a few values",
  [L + "mutator/rng.cpp", I + "mutator/rng.h", I + "mutator/deterministicRandom.h", L + "mutator/tpgMutator.cpp", L + "mutator/lineMutator.cpp", L + "mutator/programMutator.cpp", L + "learn/adversarialLearningAgent.cpp"],
  [("uniform_int_distribution over bounds", I + "mutator/deterministicRandom.h")])
p("C31", "Adversarial evaluation is fair",
  "In adversarial training every root takes part in evaluations, at each position of the team in turn, with opponents taken from the champions; a root's result combines the scores it obtained at the positions where it was being evaluated, and only those. "
  "The champions are the best roots of the previous generation and are always individuals of the graph.",
  ["configurations", "histories"], "every number of agents per evaluation, iterations and population size",
  "tests use two agents and check sizes only",
  [L + "learn/adversarialLearningAgent.cpp", L + "learn/adversarialEvaluationResult.cpp", I + "learn/adversarialJob.h"],
  [("makeJobs / evaluateAllRoots", L + "learn/adversarialLearningAgent.cpp")])
p("C32", "Policy and execution statistics count what they name",
  "Analysing a policy visits every vertex, edge, program, line and operand reachable from its root, and counts each instruction, data location and vertex exactly once per use, ignoring introns where documented. "
  "Execution statistics average the counters over the number of executions, describe each recorded trace exactly as executed, and start from zero at each analysis.",
  ["programs", "inputs"], "every graph, program and trace",
  "tests compare one graph's numbers",
  [L + "tpg/policyStats.cpp", L + "tpg/instrumented/executionStats.cpp"], [("analyzePolicy / analyzeExecution", L + "tpg/policyStats.cpp")])
p("C33", "Training improves the policy",
  "Given enough generations on a learnable environment, the score of the best individual increases towards the optimum.",
  ["histories", "configurations"], "all environments and parameters", "a few seeds on toy games",
  [L + "learn/learningAgent.cpp"], [("selection and mutation", L + "mutator/tpgMutator.cpp")])
p("C34", "Mutation terminates and draws uniformly",
  "Population building always terminates, and random draws are uniform over their range.",
  ["inputs", "configurations"], "all parameters and seeds", "sampled seeds",
  [L + "mutator/tpgMutator.cpp", I + "mutator/deterministicRandom.h"], [("rejection loops", L + "mutator/tpgMutator.cpp")])
p("C35", "Instruction arithmetic is numerically correct",
  "Each provided instruction computes the mathematical function its name states, up to rounding, on all operand values.",
  ["inputs"], "all operand values", "few sampled values",
  [I + "instructions/addPrimitiveType.h"], [("execute", I + "instructions/")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props))
