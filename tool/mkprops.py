#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
S = "src/main/cxx/"
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": [S + f for f in files],
                          "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


p("C01", "A run is a function of its arguments and input alone",
  "Two runs of any program of the suite with the same arguments, input and build write the same output: no clock, environment, process or thread identity, address, uninitialised value or hidden mutable state flows into a result. Every random number comes from the generator that the seed argument initialises, and all of the seed's bits reach it.",
  ["inputs", "schedules", "histories"], "every seed, model and data file, every interleaving of the evaluation threads, every history of earlier runs in the same process",
  "The flavour tests compare one run per program with one expected cost; a value that differs only for other seeds, other thread timings or other stack contents never shows.",
  ["core/optimize.h", "core/optimizer.cxx", "core/optimizer.h", "core/random.h", "core/deviates.h", "core/runner.h", "core/runner.cxx", "core/model.h", "core/section.cxx"],
  [("seed passes from the command line to the generator", "core/runner.h Runner::run, core/optimizer.h Builder::with_random_seed, Optimizer::Optimizer"),
   ("deviates are drawn by the coordinating thread only", "core/optimize.h optimize")], ["standard output"])
p("C02", "Concurrent evaluation of individuals is free of data races",
  "While the individuals of a generation (or the points of the uncertainty stage) are evaluated concurrently, no two concurrent evaluations, and no evaluation and the coordinating thread, access the same object without one of them only reading it. Every evaluation thread that was started has finished before any of its results is used and before the function that started it is left by any path.",
  ["schedules", "inputs"], "every interleaving of the evaluation threads, every population size and model, with and without OpenMP",
  "The tests run whatever interleaving the host offers; a race needs one particular schedule.",
  ["core/optimize.h", "core/model.h", "core/section.h", "core/section.cxx", "core/profiles.h", "core/profiles.cxx", "core/integrator.h"],
  [("one private slot per individual", "core/optimize.h optimize, postopti"), ("join loop", "core/optimize.h optimize, postopti"), ("const evaluation path", "core/model.h Model::operator(), core/section.h Section::cost")])
p("C03", "An error in an evaluation reaches the caller as an exception",
  "If evaluating the objective function or the constraint throws in any concurrent evaluation, the exception is delivered to the caller of the optimizer after all evaluations of that generation have finished; the process is never terminated by it and it is never dropped.",
  ["fault_sequences", "inputs", "schedules"], "every individual of every generation whose evaluation throws, both threading configurations, optimisation and uncertainty stage",
  "No test has an objective that throws.",
  ["core/optimize.h"], [("exception capture around each evaluation and rethrow after the join", "core/optimize.h optimize, postopti")])
p("C04", "Failures end in the documented exit code with a message",
  "Whatever goes wrong in a program of the suite, it ends with the exit code documented for the kind of error (8 for logic errors, 16 for runtime errors, 64 for any other standard exception) after a message on standard error; a wrong number of arguments is such an error. No exception of those kinds leaves a program by way of abnormal termination, and no successful exit code is returned after an exception.",
  ["inputs", "fault_sequences"], "every argument list, every input stream and every exception thrown by any operation reached from the main function of the fitting programs, utilities and ezip",
  "The suite has no test of an error path of the programs.",
  ["apps/azafran.cxx", "apps/curcuma.cxx", "apps/mascada.cxx", "apps/oregano.cxx", "apps/ezip.cxx", "util/airtovac.cxx", "util/vactoair.cxx", "util/helicorr.cxx", "core/exitcodes.h"],
  [("catch clauses in every main", "apps/*.cxx util/*.cxx main"), ("code table", "core/exitcodes.h Exit_Codes")], ["exit status", "standard error"])
p("C05", "The exit status and result messages tell how the optimisation ended",
  "A fitting program exits with 0 exactly if the optimisation reached the accuracy goal, with 1 if it stopped for underflow of the mutation variance and with 2 if it stopped at the generation limit; the message block of the result document states the same outcome, and cost and parameters reported are those of the final state; uncertainties are computed only for an optimised result.",
  ["inputs", "histories"], "every way an optimisation can end",
  "The tests grep the final cost of converging runs; underflow and early stop occur in none.",
  ["core/runner.h", "core/runner.cxx", "core/optimizer.h", "core/optimizer.cxx", "core/optimize.h"],
  [("status computation", "core/runner.h Runner::run"), ("message computation", "core/runner.cxx Runner::write_result_messages"), ("outcome flags", "core/optimize.h optimize")])
p("C06", "Every command-line argument controls the setting it names",
  "Each of the arguments seed, parents, population, step, accuracy, stop and trace is converted from its own position and reaches exactly the optimizer setting (or tracer modulus) it names, unchanged; the same holds for the arguments of the utilities. A wrong number of arguments is refused with an error, none prints the usage message and exits with 0.",
  ["inputs"], "every argument list",
  "Every test passes the same valid argument pattern, so exchanged, dropped or altered arguments go unnoticed where they do not change the fit.",
  ["core/runner.h", "core/runner.cxx", "core/optimizer.h", "core/optimizer.cxx", "apps/ezip.cxx", "util/airtovac.cxx", "util/vactoair.cxx", "util/helicorr.cxx"],
  [("positional parsing", "core/runner.h parse_*"), ("builder setters", "core/optimizer.h Builder"), ("argument switch", "apps/ezip.cxx main")])
p("C07", "Evaluated and reported parameter values lie within their bounds",
  "In every generation the objective function is evaluated only for individuals that the constraint accepts: a sampled individual that violates a bound is resampled until none is violated, and the check looks at every free parameter against its own lower and upper bound.",
  ["inputs", "histories"], "every model, seed and history of the sampling loop",
  "Bounds in the tests are wide; a missing re-check shows only when a rare sample falls outside.",
  ["core/optimize.h", "core/model.h"], [("resampling loop", "core/optimize.h optimize"), ("bound check", "core/model.h Bounded_Constraint::is_violated")])
p("C08", "Masked data points never influence the fit",
  "Flux and uncertainty values of data points that are masked out do not affect the cost of a section, the continuum fitted to it or the number of data points it counts, and masking an interval changes the mask of exactly the points whose wavelength lies inside it.",
  ["inputs"], "every data set, every set of masked intervals",
  "One flavour test has masked intervals and compares a single cost.",
  ["core/section.cxx", "core/section.h"], [("mask tests", "core/section.cxx Section::continuum, cost, valid_data_count"), ("mask", "core/section.cxx Section::mask")])
p("C09", "The reported statistics are those of the fitted model",
  "For every section the cost contributed to the objective is half the sum of squared residuals over the unmasked points, with the residual being observed minus fitted flux over the uncertainty and the fitted flux the convolved absorption times the continuum; the values stored and written for a section after the fit (optical depth, absorption, continuum, fit, residual, cost) are computed by the same relations.",
  ["inputs"], "every section, model and data set",
  "The tests compare the total cost of four data sets to printed precision.",
  ["core/section.h", "core/section.cxx", "core/model.h"], [("cost", "core/section.h Section::cost"), ("apply", "core/section.h Section::apply"), ("put", "core/section.cxx Section::put")])
p("C10", "Reading a model is all or nothing",
  "If any part of a model definition or of a data file cannot be read, is missing or is inconsistent (duplicate or unknown identifier, self reference, inaccessible data file), reading fails with an exception; a model object that is returned reflects the complete definition. (Surplus text at the end of a line of the definition is not an error.)",
  ["inputs", "fault_sequences"], "every model definition and data file, every read that can fail",
  "The tests read five well-formed models.",
  ["core/model.h", "core/readline.h", "core/readline.cxx", "core/section.cxx"], [("stream state checks", "core/model.h Model::get"), ("commit at the end of read", "core/readline.h read"), ("commit at the end of Section::get", "core/section.cxx Section::get")])
p("C11", "References copy the referenced parameter completely, or are refused",
  "A parameter that refers to another takes over its value, bounds and free-parameter index together, from the parameter its identifiers name, through any number of references; resolving references always ends, and a reference to an undefined identifier or a circular reference is refused with an error.",
  ["inputs"], "every reference graph",
  "One test model has references, all forward and one hop.",
  ["core/model.h"], [("reference resolution", "core/model.h Model::get")])
p("C12", "Free parameters map to the optimizer's vector consistently",
  "Every free parameter has its own index in the optimizer's vector, and all places that translate between model parameters and that vector (initial value, step size, bounds, evaluation, storing of results and uncertainties) use the same index; fixed parameters keep the value of the definition, and parameters that share an index share the value.",
  ["inputs"], "every model",
  "Test models are small and only their cost is compared.",
  ["core/model.h"], [("index table", "core/model.h Model::get, set, operator(), get_initial_parameter_values, get_initial_local_step_sizes, get_constraint")])
p("C13", "Result documents can be taken apart again",
  "Every result document a fitting program writes contains each block (command, log, messages, model definition, data) exactly once with balanced begin and end markers on their own lines, in terms of the same markers the extraction tools look for, and the model definition it embeds is the definition that was read, line by line.",
  ["inputs", "configurations"], "every model and outcome, every writer and extractor pair",
  "One feature test extracts the log of one document; other markers are never compared.",
  ["core/runner.h", "core/runner.cxx", "core/model.h", "apps/ecom.cxx", "apps/edat.cxx", "apps/elog.cxx", "apps/emes.cxx", "apps/emod.cxx"],
  [("writers", "core/runner.cxx write_*, core/model.h Model::get, put"), ("extractors", "apps/e*.cxx main")])
p("C14", "Extractors print exactly the lines between the markers",
  "An extraction tool copies to standard output, unchanged and in order, exactly the input lines that lie after a begin marker line and before the next end marker line of its block (in the current or the former spelling), and nothing else; it ends at the end of input with exit code 0.",
  ["inputs", "programs"], "every input document, with any number and order of marker lines",
  "Only elog's exit code is tested.",
  ["apps/ecom.cxx", "apps/edat.cxx", "apps/elog.cxx", "apps/emes.cxx", "apps/emod.cxx"], [("line loop", "apps/e*.cxx main")])
p("C15", "Columns of a data file stay aligned when read",
  "When a data file is read, the values stored at one position come from one input row: wavelength, flux and uncertainty of a row end up at the same index, also when an optional column is absent in some rows, lines are skipped or comment lines (starting with #, % or !) are interspersed; malformed data make the read fail and leave the result unchanged.",
  ["inputs"], "every data file",
  "There is no test of the data reader; the fits use complete, regular files.",
  ["core/dataio.cxx", "core/section.cxx"], [("row loop", "core/dataio.cxx get"), ("row loop", "core/section.cxx Section::get")])
p("C16", "Data written can be read again and streams keep their format",
  "The data tools write exactly one row per data point, the columns in the order in which the readers expect them, and leave the number format flags of the stream they write to as they found them; the same holds for the optimisation log, the parameter table and the section table.",
  ["inputs", "histories"], "every data set and every prior state of the output stream",
  "The tests never look at the formatted tables, nor at what is written after them.",
  ["core/dataio.cxx", "core/section.cxx", "core/model.h", "core/runner.h", "core/runner.cxx"], [("flags saved and restored", "every put/write/trace function")])
p("C17", "Air and vacuum dispersion formulas and their derivatives are exact",
  "For every wavenumber the three dispersion formulas evaluate the published expressions (Birch & Downs 1994, Edlén 1953, Edlén 1966), the variants that also return a derivative return the same value and its exact derivative, and the two conversion tools apply a formula and its inverse to wavelengths in the documented units.",
  ["inputs"], "every wavenumber in the domain",
  "One of six functions is tested at a handful of points and through a 1e-9 tolerance.",
  ["core/equations.h", "core/equations.cxx", "util/airtovac.cxx", "util/vactoair.cxx", "util/helicorr.cxx"], [("formulas", "core/equations.h, core/equations.cxx")])
p("C18", "The equation solver never returns an unconverged root",
  "The Newton solver returns a value only after a step smaller than the requested relative accuracy, having applied that step; if the iteration limit is reached first it throws. It never performs more iterations than the limit.",
  ["inputs"], "every function, constant, start value, accuracy and limit",
  "The solver is exercised only where it converges in a few steps.",
  ["core/base.h"], [("solve", "core/base.h solve")])
p("C19", "Reused integrand samples belong to the abscissas they are used for",
  "When the integrator refines an interval, every integrand value that a part takes over from its parent is the value at the abscissa where the part's rule uses it, and every part evaluates the remaining abscissas itself: for every integrand, the estimates equal those computed without reuse. (The two rules of an integrator are not both the lowest one, which leaves no error estimate.)",
  ["inputs", "histories"], "every integrand, interval and refinement history",
  "A wrong reuse slot still yields an estimate that converges for the smooth integrands tested.",
  ["core/integrator.h"], [("reuse tables", "core/integrator.h Part::new_lower_part, new_upper_part, evaluate")])
p("C20", "The quadrature rules integrate polynomials exactly to their degree",
  "Each of the nested quadrature rules has abscissas inside the interval and weights that integrate every polynomial up to the rule's degree (13, 19, 27 and 41) exactly, to the precision of the type, and each rule's weights are addressed by matching offset and length.",
  ["inputs"], "every polynomial integrand up to the degree of each rule",
  "Adaptive refinement hides a wrong weight: results still reach the tested tolerance or differ below it.",
  ["core/integrator.h"], [("tables", "core/integrator.h xi, wi, mw, nw")])
p("C21", "Heap objects of the integrator are freed exactly once",
  "Every part of a partition that is allocated is owned by the partition and destroyed exactly once, whatever the refinement history and on every exit including exceptions thrown by the integrand in the refinement; a destroyed part is never used.",
  ["inputs", "histories", "fault_sequences"], "every refinement history",
  "Leaks and double deletions do not change results.",
  ["core/integrator.h"], [("ownership", "core/integrator.h Partition")])
p("C22", "Eigenvalue decompositions use the LAPACK interface correctly",
  "Every call of a LAPACK routine gets arrays at least as long as the routine may access for the problem dimension, the triangle that the caller fills is the one the routine is told to read, and the status it returns is checked so that each failure (illegal argument, no convergence, any other) raises its own exception before any result is used.",
  ["inputs", "fault_sequences"], "every dimension and matrix, every status value",
  "LAPACK never fails in the tests, and short arrays are overrun silently.",
  ["core/decompose.cxx", "core/decompose.h", "core/optimize.h", "core/optimizer.cxx"], [("status check", "core/decompose.cxx"), ("work arrays", "core/decompose.cxx")])
p("C23", "Line profiles follow the documented parametrisation",
  "For every parameter vector each line model uses each of its documented parameters exactly as documented (rest wavelength, oscillator strength, redshift, velocity, broadening, column density, sensitivity coefficients), all models share the same physical conversion factors, and the models coincide where their parameters do: vanishing variation reduces the many-multiplet model to the Doppler model. A superposition is the sum of its lines.",
  ["inputs"], "every parameter vector and wavelength",
  "The profile tests sample one parameter set per class.",
  ["core/profiles.h", "core/profiles.cxx"], [("constructors and operators", "core/profiles.cxx")])
p("C24", "Strategy parameters always match dimension and parent number",
  "Whatever the order in which an optimizer is configured, the built optimizer's derived strategy parameters (recombination weights, cumulation and adaptation rates, damping) are those computed from its final problem dimension and parent number: weights are positive, decreasing, and as many as there are parents.",
  ["histories", "inputs"], "every sequence of configuration calls",
  "Tests configure in one order only.",
  ["core/optimizer.h", "core/optimizer.cxx"], [("strategy parameters", "core/optimizer.cxx Builder::with_strategy_parameters")])
p("C25", "Random generators stay inside their state and range",
  "Every pseudo-random generator accesses only elements of its own state for every number of draws and every seed, refreshes every element of the state exactly once per period, and maps its output to a real number in the closed unit interval. Initialisation, recurrence and tempering are those of the published definition of the generator.",
  ["histories", "inputs"], "every seed and number of draws",
  "Tests compare the first thousand draws for one seed.",
  ["core/random.h"], [("state machine", "core/random.h Melg::rand, Mersenne_Twister::rand")])
p("C26", "Normal deviates are always finite",
  "The normal deviate never takes the logarithm of or divides by a radius that is zero, and never uses a point outside the unit disk; values are handed out in pairs, each exactly once.",
  ["inputs", "histories"], "every uniform sequence",
  "The exceptional radius occurs with negligible probability in a test.",
  ["core/deviates.h"], [("rejection loop", "core/deviates.h Normal_Deviate::operator()")])
p("C27", "An adaptive integral is the sum over a partition of its interval",
  "At every step of the adaptive integration the parts cover the interval exactly once: it begins with one part for the whole interval, a refinement replaces the part with the largest error by its two halves, and result and error are the sums over all parts. Refinement goes on until the error is within the goal or the step limit is reached. Integrals over infinite ranges are transformed exactly and pass goal and limit on.",
  ["inputs", "histories"], "every integrand, interval, goal and limit, every number of parts",
  "A part that is lost, counted twice or chosen wrongly only slows down or slightly shifts the few smooth integrals tested.",
  ["core/integrator.h"], [("partition", "core/integrator.h Partition"), ("adaptive loop", "core/integrator.h integrate"), ("infinite ranges", "core/integrator.h integrate_positive_infinite, integrate_negative_infinite, integrate_infinite")])
p("C28", "Invalid optimizer settings are refused before they are used",
  "A configuration that would make the optimizer read outside its arrays or never end (no parameters to optimise, no parents, fewer individuals than twice the parents, inconsistent vector lengths) is refused with an exception before any evaluation.",
  ["inputs"], "every combination of settings",
  "All tests use valid settings.",
  ["core/optimizer.h", "core/optimizer.cxx", "core/runner.h", "core/model.h"], [("argument checks", "core/optimizer.cxx Builder, Optimizer")])
p("C29", "Numeric kernels never index outside their arrays",
  "The computation of the convolved absorption, the continuum and the residuals accesses only existing elements of its arrays for every number of data points, resolution, super-sampling and continuum degree.",
  ["inputs"], "every section shape",
  "Overruns by one element read stale memory silently.",
  ["core/section.cxx", "core/section.h"], [("loop bounds", "core/section.cxx convolute, continuum, supersample")])
p("C30", "Every computation ends",
  "Optimisation ends after at most the requested number of generations, integration after at most the requested number of refinements; every loop of the library is bounded by a quantity that is fixed at loop entry or consumes finite input, apart from the rejection sampling loops and the line search of the uncertainty stage.",
  ["inputs", "histories"], "every input and setting",
  "Tests end because they converge.",
  ["core/optimize.h", "core/integrator.h", "core/model.h", "core/base.h", "core/readline.cxx"], [("loop conditions", "core/optimize.h optimize, core/integrator.h integrate, core/model.h Model::get")])
p("C31", "The optimizer performs the published evolution strategy",
  "For every objective function, constraint, strategy setting, random sequence and starting state, the optimizer carries out exactly the documented covariance matrix adaption evolution strategy: sampling, selection and weighted recombination, the cumulation paths, the covariance and step size updates, the conditioning of the covariance matrix, the tests for underflow and convergence, the generation counter, the states handed to the tracer and the returned value; the uncertainty stage computes the documented rescaled standard uncertainties.",
  ["inputs", "histories"], "every dimension, parent number, population size, generation and state",
  "Tests run a few benchmark functions to convergence, which an altered update usually still reaches.",
  ["core/optimize.h"], [("strategy", "core/optimize.h optimize"), ("uncertainties", "core/optimize.h postopti")])


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
