import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None,state=None,hook=None):
    if len(title)>80: print(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
C="src/spey/system/cache.py";H="src/spey/base/hypotest_base.py";SM="src/spey/interface/statistical_model.py"
UL="src/spey/hypothesis_testing/upper_limits.py";TS="src/spey/hypothesis_testing/test_statistics.py"
OC="src/spey/optimizer/core.py";MC="src/spey/base/model_config.py";CB="src/spey/combiner/uncorrelated_statistics_combiner.py"
DP="src/spey/backends/default_pdf/__init__.py";SP="src/spey/backends/default_pdf/simple_pdf.py";UN="src/spey/backends/default_pdf/uncertainty_synthesizer.py"
TM="src/spey/backends/default_pdf/third_moment.py";DI="src/spey/backends/distributions.py"
IN="src/spey/__init__.py";WU="src/spey/system/webutils.py";LG="src/spey/system/logger.py";CT="src/spey/multiparameter/contour.py"
p("C01","Concurrent identical queries are computed once and every caller gets the value",
 "When several threads ask a cached computation of one object for the same arguments at overlapping times, the computation runs once while its result is retained and every caller receives the value that computation produced. A caller never receives the value belonging to different arguments, a different object, or a partially finished computation, whatever the interleaving.",
 ["schedules","histories"],"every interleaving of threads calling cached computations with equal or different arguments, with evictions, clears and failures mixed in",
 "The tests start a few threads behind one barrier and see one lucky schedule; the property quantifies over all interleavings of lookups, inserts, completions, evictions and clears.",
 [C],[("per-key in-flight marker with an event",C+":_PerInstanceCache._call_with_cache"),("lock around the ordered store",C+":_PerInstanceCache")],
 ["return values and number of executions of the wrapped computation"],[("store","completed and in-flight entries by canonical argument key",C),("order","insertion order used for eviction",C)])
p("C02","The result cache never blocks forever and recovers from failures",
 "A call to a cached computation always terminates when the computation itself terminates: waiting threads are released when the computation they wait for succeeds, fails, is evicted or is cleared away. A failing computation raises its own exception to its caller, is not remembered as a result, and neither it nor any eviction or clear makes later calls fail with an unrelated error.",
 ["schedules","fault_sequences"],"all interleavings of calls, failures, evictions caused by a full store, and cache clears",
 "A deadlock or a corrupted bookkeeping structure needs a particular order of eviction/clear/failure between insertion of a marker and completion; no test clears or overfills the cache while a computation is in flight.",
 [C],[("waiters re-check after the event is set",C+":_PerInstanceCache._call_with_cache"),("cleanup on failure",C+":_PerInstanceCache._call_with_cache"),("clear/evict",C+":_PerInstanceCache.cache_clear, _evict_if_needed")],
 ["termination of every call","exception type seen by each caller"])
p("C03","Cached results are keyed by canonical arguments, bounded and isolated per object",
 "Calls of one object's cached computation that are equal up to positional/keyword spelling, defaults, mapping order and array container contents share one result, while calls that differ in any argument value never do. At most the configured number of results is retained with the oldest evicted first, every caller gets its own copy so that changing a returned value changes nothing else, and separate objects (including copies) never share results.",
 ["histories","inputs"],"all sequences of calls, clears and mutations of returned values over several objects and argument spellings, at every store size",
 "Tests sample single pairs of calls; key collisions, eviction order and aliasing only show for particular sequences of spellings and mutations.",
 [C],[("argument canonicalisation",C+":_PerInstanceCache._make_key/_make_token"),("deep copy in and out",C+":_PerInstanceCache._call_with_cache"),("per-instance binding",C+":_PerInstanceCacheDescriptor.__get__")],
 ["whether the computation ran","returned values","cache_info"])
p("C04","Overlapping queries of one model do not disturb each other",
 "Queries of one statistical model or combination that overlap in time, asked from several threads, each give the value they give when asked alone, whatever the interleaving of their evaluations, and leave the model answering as before. This holds for likelihoods, fits, gradients, pseudo-data expectations, ranges and conditions of the fit, confidence levels and limits of every built-in family (random draws, second derivatives and log output are not meant).",
 ["schedules","inputs"],"every interleaving of the evaluations of two or more queries with equal or different arguments on one model",
 "Tests ask one question at a time; two evaluations only meet in a place shared by the model if a switch of threads falls between two particular lines.",
 [DI,DP,SP,SM,OC,CB],[("rates of an evaluation kept apart from those of another",DI+":MainModel"),("model configuration derived per query",DP+":DefaultPDFBase.config"),("fit set up per query",SM+":StatisticalModel.prepare_for_fit")],
 ["values of overlapping queries","values of the same model afterwards"])
p("H01","Test statistics follow their piecewise definition",
 "The statistics q, q-tilde, q-mu and q0 equal twice the difference between the negative log-likelihood at the tested value and the appropriate minimum, with the one-sided statistics being zero exactly when the best fit lies above the tested value (below it for discovery), and q-tilde replacing a negative best fit by zero. They are never negative, and an unknown statistic name is refused; the derived effective shift for asymptotic formulas is the matching signed square-root combination.",
 ["inputs"],"all likelihood curves, best-fit values, tested values and statistic names",
 "The tests evaluate a couple of numerical points; the branch structure (below/above, sign of best fit, zero Asimov) multiplies into cases that are not sampled.",
 [TS,H],[("statistics",TS+":qmu, qmu_tilde, q0, get_test_statistic"),("Asimov combination",TS+":compute_teststatistics")],
 ["value of each statistic","sqrt(q), sqrt(q_Asimov) and delta triple"])
p("H02","Asymptotic exclusion confidence levels are the documented ratios in order",
 "With the asymptotic calculator the observed exclusion level is one minus the ratio of the two tail probabilities of the shifted standard normal at the test statistic, and the expected levels are the same formula at background pulls of minus two to plus two standard deviations, returned in the documented fixed order and clipped to a probability. The element returned for each expectation type is the one documented, the statistic used depends on whether negative signal strength is allowed as documented, and a vanishing Asimov statistic means no exclusion.",
 ["inputs","configurations"],"all statistical models, tested values, expectation types and signal-positivity settings",
 "Tests compare a few stored numbers for a few models; the order, selection and degenerate-branch rules hold for every model and every argument combination.",
 ["src/spey/hypothesis_testing/asymptotic_calculator.py",H,"src/spey/hypothesis_testing/distributions.py","src/spey/hypothesis_testing/utils.py"],
 [("p-value formulas","src/spey/hypothesis_testing/asymptotic_calculator.py"),("exclusion level selection",H+":exclusion_confidence_level")],["exclusion_confidence_level result"])
p("H03","Toy-based exclusion levels count toys by the documented rule",
 "With the toy calculator the tail probability of each hypothesis is the fraction of toy statistics at or above the tested one, and the exclusion level is one minus the ratio of the two fractions; expected levels use the background toys at the documented normal percentiles. Each toy is generated from the hypothesis it represents and its statistic is computed on that toy, never on the recorded data, and the requested number of toys is used.",
 ["inputs","histories"],"all toy samples, tested values, expectation types, tie patterns and toy counts",
 "The tests run a handful of toys and check only that a number comes out; tie handling, sample/hypothesis pairing and percentile selection are not fixed by sampled runs.",
 ["src/spey/hypothesis_testing/toy_calculator.py","src/spey/hypothesis_testing/distributions.py",H],
 [("empirical distribution","src/spey/hypothesis_testing/distributions.py:EmpTestStatistic"),("toy loop",H+":exclusion_confidence_level/_exclusion_confidence_level_toys")],["exclusion level","arguments of the likelihood on each toy"])
p("H04","Upper limits invert the exclusion level",
 "A returned upper limit at a confidence level is a signal strength at which the corresponding exclusion level equals that confidence level, and a limit is reported as infinite only when no value can be excluded to that level in the searched domain. Expected bands come in the documented order and agree with separate requests for each band, limits grow with the requested confidence level, and a cross-section limit is the limit times the supplied cross section.",
 ["inputs","configurations"],"all statistical models, confidence levels, expectation types, calculators and initial brackets",
 "The tests check a few numbers on a few models; the bracketing search, the infinite cases and the band order have to be right for every exclusion curve.",
 [UL,H],[("root bracketing",UL+":find_root_limits/find_poi_upper_limit"),("band wiring",H+":poi_upper_limit")],["poi_upper_limit result against exclusion_confidence_level at that value"])
p("H05","Chi-square values and interval endpoints agree with the likelihood",
 "The chi-square of a tested value is twice the difference between its negative log-likelihood and that of the chosen reference (best fit, zero signal, or an explicit point), computed on the chosen data, and scanning a collection of values gives exactly what the separate values give. Interval endpoints lie on the requested side(s) of the best fit at the requested chi-square level, and a quantity documented as a probability lies between zero and one.",
 ["inputs","configurations"],"all models, references, collections of tested values, interval sides and confidence levels",
 "Tests check one quadratic example; wrong side, wrong tail, wrong reference or precision loss in scans appear for other argument shapes.",
 [H,UL],[("chi-square",H+":chi2"),("intervals",H+":chi2_test / "+UL+":find_chi2..")],["chi2, chi2_test, exclusion level with the chi-square calculator"])
p("H06","Discovery significance comes from the discovery statistic",
 "The significance equals the signed square root of the discovery statistic of the tested data against the background-only hypothesis, is zero when the best fit shows no excess, and is consistent with the reported p-values; expected significance uses data generated for the corresponding signal hypothesis. The returned pieces come in the documented order.",
 ["inputs","configurations"],"all models, expectation types and excess/deficit situations",
 "Tests evaluate one model; the deficit, expected and negative-signal combinations are not covered.",
 [H,"src/spey/hypothesis_testing/asymptotic_calculator.py"],[("significance",H+":significance")],["significance result"])
p("H07","Uncertainty and pull of the signal strength follow from the likelihood",
 "The uncertainty of the signal strength is the inverse curvature of the profile likelihood where the model provides second derivatives, and otherwise the distance to the Asimov best fit divided by the root of the Asimov statistic of the chosen test. The pull is the signed square root of twice the likelihood difference to the best fit (positive below it, negative above, zero at it), for single values, collections and mappings of parameters, for every expectation type, and any real number type is accepted for the tested value.",
 ["inputs","configurations"],"models with and without second derivatives, all tested values (any number type), test statistics and expectation types",
 "Tests evaluate the uncertainty once per backend and the pull at one value.",
 [H,SM],[("uncertainty",H+":sigma_mu"),("pull",H+":pull"),("Hessian",SM+":sigma_mu_from_hessian")],["sigma_mu","pull"])
p("L01","Queries are pure: answers never depend on earlier queries or alter inputs",
 "A query to a statistical model returns the same answer regardless of which other queries were made before it, in which order, or how often, as long as the model itself is not modified. No query modifies the objects the caller passed in, the values previously returned, or the data and defaults held by the statistical model.",
 ["histories","inputs"],"all sequences of public queries with arbitrary arguments over one or several models",
 "The tests call each method once on a fresh model; leaks through shared defaults, caller lists, caches and in-place edits need specific multi-call sequences.",
 [H,SM,OC,"src/spey/optimizer/scipy_tools.py",MC,DP,SP,CB],[("fit arguments copied",OC+":fit"),("defensive copies",MC),("cached fits",H)],["results on a used versus a fresh model","caller objects before/after"])
p("L02","Conditional fits pin the requested parameters and minimise over the rest",
 "Fixing the parameter of interest, several parameters by name or index, or nuisance parameters returns a fit in which exactly those parameters have exactly the requested values, every other parameter lies within its bounds, and the negative log-likelihood is not larger than at other points with the same fixed values. Requests naming unknown parameters are refused rather than ignored.",
 ["inputs","configurations"],"all parameter layouts, sets of fixed parameters, spellings (value, mapping by index or name) and bounds",
 "Tests fix one or two parameters of one model; index/name mapping and pinning interact with layout (position of the parameter of interest) in untested ways.",
 [H,SM,OC,MC],[("fixed-parameter resolution",MC+":resolve / "+OC+":fit"),("pinning in minimisers","src/spey/optimizer")],["fit parameters and value"])
p("L03","The maximum-likelihood fit is never beaten by any tested point",
 "The reported maximum of the likelihood is at least the likelihood at any signal strength or parameter point inside the fitted domain that a user asks for, its parameters lie in their bounds, and the value reported for the best-fit signal strength is reproduced when the likelihood is queried there. The forms returned (signed log value or exponential, single value or per-parameter list) describe the same fit.",
 ["inputs","configurations"],"all models, data, domains (negative signal allowed or not), starting points and returned forms",
 "The tests compare with stored optima on a handful of models.",
 [H,SM,OC],[("global fit",H+":maximize_likelihood"),("fit",OC+":fit")],["maximize_likelihood versus likelihood"])
p("L04","Asimov data are the expected data of the documented hypothesis",
 "The Asimov dataset for a test is the model expectation at the documented hypothesis (zero signal for exclusion, unit signal for discovery) with all other parameters at their fitted values for that hypothesis on the chosen data, and Asimov likelihoods are evaluated on exactly that dataset.",
 ["inputs","configurations"],"all models, expectation types and test-statistic families",
 "Tests compare end numbers of one or two models, not which dataset was generated from which fit.",
 [H,SM],[("generation",H+":generate_asimov_data"),("Asimov fits",H+":asimov_likelihood, maximize_asimov_likelihood")],["data passed to the backend in each fit"])
p("L05","Expectation type and explicit data select the dataset that is used",
 "Observed and after-the-fit requests use the recorded observations, before-the-fit requests use the background-only prediction, and explicitly supplied data replace both, in every query that accepts them. The three expectation types can be written as enumeration members or their documented names with the same result everywhere.",
 ["inputs","configurations"],"every public query x expectation type x spelling x explicit data",
 "Tests use the enumeration members and one query each.",
 [SM,H,"src/spey/utils.py"],[("data selection",SM),("expectation type equality","src/spey/utils.py:ExpectationType")],["data argument received by the backend"])
p("L06","Capabilities are reported truthfully and used in the right precedence",
 "A statistical model lists a calculator as available exactly when its backend provides what that calculator needs, requesting an unavailable calculator is refused with the documented error, and any calculator it lists works. A backend's own specialised implementation of a quantity is used when it has one and the generic route otherwise, with the same meaning of the result.",
 ["configurations","programs"],"all backends, i.e. all subsets of optional capabilities, and all queries",
 "The tests use full-featured backends or monkeypatched stubs; the subsets of optional features are not enumerated.",
 [SM,"src/spey/base/backend_base.py",H],[("availability",SM+":available_calculators"),("native dispatch",SM)],["available_calculators, raised errors, calls on the backend"])
p("P01","Parameter configuration edits keep a consistent parameter space",
 "Every edit of the bounds (fixed values, rescaled domain of the signal strength) leaves the configuration it derives from untouched, keeps one ordered (lower, upper) pair per parameter with open sides kept open, contains every fixed value inside its pair (a signal strength from its physical minimum on), and leaves the pairs of free parameters, and those that already contain the value, as they were. Renaming is a simultaneous one-to-one substitution that is refused as a whole when a name is unknown or would clash, and parameters resolve identically by index or by name.",
 ["inputs","histories"],"all parameter layouts, fixed values (including negative and out of bounds), renamings and sequences of such edits",
 "Tests try one positive and one negative value; nested, inverted or clashing results need other argument combinations.",
 [MC,SM],[("bounds edits",MC+":fixed_poi_bounds, fixed_poi_bounds_multi, rescale_poi_bounds"),("renaming",MC)],["returned configuration"])
p("P02","The fit driver passes bounds and options faithfully and retries safely",
 "A fit minimises the given objective inside the given bounds (and constraints, where the minimiser supports them) with fixed parameters pinned, and reports a value equal to the objective at the returned point, also when it warns about failure. Unknown options do not leak to the numerical routine, documented options reach it, and retries after a failure only enlarge the bounds in the documented way, from an admissible starting point, without touching the caller's objects. Starting point, bounds, options and constraints given to a query of a statistical model reach every fit behind that query.",
 ["inputs","configurations","fault_sequences"],"all objectives, bounds (finite, one-sided, none), option sets, minimisers and convergence failure patterns",
 "Tests stub one failure; the combination of failure count, bound shape and option is not enumerated.",
 [OC,"src/spey/optimizer/scipy_tools.py","src/spey/optimizer/minuit_tools.py","src/spey/interface/statistical_model.py","src/spey/base/hypotest_base.py"],[("fit",OC+":fit"),("queries","src/spey/interface/statistical_model.py:StatisticalModel.prepare_for_fit"),("retry loop","src/spey/optimizer/scipy_tools.py:minimize"),("pinning","src/spey/optimizer/minuit_tools.py")],["fit value and point","arguments received by the numerical routine"])
p("P03","The selected optimiser is the one that is used",
 "After selecting an optimiser programmatically or through the environment, every later fit without an explicit choice uses it, an explicit choice in a single call wins for that call only, and unknown or unavailable choices leave the current selection unchanged and fall back as documented.",
 ["histories","configurations"],"all sequences of selections, environment values and per-call choices",
 "Tests check isolated calls, not sequences mixing the three sources.",
 ["src/spey/optimizer/__init__.py",OC,IN],[("selection",OC+":_get_minimizer, set_optimiser")],["which minimiser is invoked"])
p("K01","A combination behaves as an ordered set of uniquely named analyses",
 "A combination holds its statistical models in insertion order under unique analysis names: adding a non-model or a duplicate name is refused and leaves it unchanged, removal removes exactly the named one, and lookup, iteration, length and membership agree with each other. Joining combinations yields a new one with the members of both, in order, and leaves the operands unchanged.",
 ["histories"],"all sequences of append, remove, lookup, join and failed operations",
 "Tests exercise one append and one remove.",
 [CB],[("collection operations",CB)],["contents, length, iteration, errors"])
p("K02","Combined inference is the sum over the combined models",
 "The combined negative log-likelihood at a signal strength is the sum of the members' values at that strength on their own data with their own options, its fits minimise that sum inside the common domain, and combined Asimov data are each member's Asimov data. Adding a member never changes how the other members are evaluated, and the most sensitive member reported is the one with the smallest expected limit.",
 ["inputs","configurations"],"all collections of models, tested values, per-analysis options and data",
 "Tests combine two or three fixed models and compare one number.",
 [CB],[("combined likelihood",CB+":likelihood, maximize_likelihood, generate_asimov_data"),("lower limit of the domain",CB+":minimum_poi")],["combined results versus members' calls"])
p("B01","Built-in models predict the documented rates and expose the matching layout",
 "Every built-in model's expected data are background plus signal strength times signal, shifted by its nuisance parameters in the documented way and followed by the auxiliary expectation, and its parameter layout has one entry for the signal strength and one per documented nuisance. The lowest allowed signal strength is the smallest value that keeps every background-plus-signal rate non-negative, and models without signal are reported as not testable.",
 ["inputs","configurations"],"all built-in model families with all yields, uncertainties, correlations, analyses and parameter values",
 "Tests construct one example of each family.",
 [DP,SP,UN,TM],[("expected data",DP),("layout",DP+":config"),("minimum signal strength",DP)],["expected_data, config, minimum_poi, is_alive"])
p("B02","Likelihood values, objectives, gradients and Hessians agree",
 "The log-likelihood of a built-in model at a parameter point is the documented sum of main and constraint terms for the given data; the fit objective is its negative, the returned gradient is the objective's slope and the Hessian is its curvature. All of them use the same data and the same parameters.",
 ["inputs","configurations"],"all built-in families, data, parameter points and data overrides",
 "Tests check a few fitted values; agreement must hold at every point.",
 [DP,SP,DI],[("objective/gradient",DP+":get_objective_function"),("logpdf",DI+":MainModel, ConstraintModel")],["functions returned by the backend"])
p("B03","Signal uncertainties enter as documented and vanish when absent",
 "A signal uncertainty scales the signal contribution by the documented shift of its own nuisance parameter and adds exactly the matching constraint terms, on every built-in model that accepts it. With zero shift the prediction equals the one without signal uncertainties, and malformed inputs are refused.",
 ["inputs","configurations"],"all uncertainty specifications (symmetric, asymmetric, correlated), models and parameter values",
 "Tests cover one or two shapes on one model.",
 [UN,DP],[("synthesiser",UN)],["expected data and log-likelihood as functions of the nuisance parameters"])
p("B04","Pseudo-data come from the stated distribution with the stated shape",
 "Sampling a model at a parameter point yields the requested number of samples in the layout of the observed data, with main counts distributed according to the model rates at that point and auxiliary data only when asked for. Sampling is driven by the global generator only, so equal generator states give equal samples, and successive samples are independent.",
 ["inputs","configurations"],"all built-in models, parameter points, sample counts and auxiliary-data settings",
 "Tests check shapes of one sample.",
 [DP,SP,DI],[("samplers",DI+":MainModel.sample, ConstraintModel.sample")],["sample arrays"])
p("B05","Third-moment expansions solve their defining relations",
 "For every admissible covariance and third moment the expansion coefficients reproduce the background mean, the variances and the third moments they were computed from, and inadmissible inputs are refused or flagged rather than returning wrong coefficients. The third moment computed from asymmetric uncertainties is odd under exchanging the two sides and zero for symmetric ones, and equals that of the two-sided Gaussian they describe.",
 ["inputs"],"all covariance diagonals and third moments, all asymmetric uncertainty pairs, all shifts",
 "Tests check a single numeric example.",
 [TM,DP],[("expansion",TM)],["returned coefficients"])
p("M01","Equivalent descriptions of an experiment give equivalent results",
 "Results depend on the experiment, not on how it is written down: reordering channels, quoting the signal yields for another reference strength (all strengths then scale by the inverse factor), adding a channel without signal that is independent of the others, splitting or adding up Poisson channels of the same composition, moving data and background of a Gaussian channel together, choosing a more general built-in family that contains the model, giving independent channels as separate models and combining them, or passing the numbers in another container never changes best fits, likelihood ratios, chi-squares, pulls, exclusion levels, limits, significances or Asimov data beyond numerical precision.",
 ["inputs","configurations"],"all presentations reachable from an experiment by any chain of these rewritings, for every built-in family and query",
 "Tests fix one presentation of each model and store its numbers; that a different but equivalent input gives the same physics can only be stated over all rewritings.",
 [DP,SP,UN,DI,H,SM,CB],[("family constructors",DP),("rates and constraints",SP),("queries",H),("fits",SM),("combination",CB)],["answers of every public query for both presentations"])
p("R01","The backend registry is consistent for installed and registered backends",
 "Every name listed as available can be loaded, describes itself with metadata, and builds a statistical model whose backend is that one; a backend registered at run time becomes available under its own name and works the same way in every query. Unknown, incompatible or malformed backends are refused with the documented error and leave the registry unchanged.",
 ["histories","configurations"],"all sequences of registrations, lookups and failures over sets of backends",
 "Tests check single lookups with stubs; the interaction of registration with later lookups is not exercised.",
 [IN],[("registry",IN+":register_backend, get_backend, get_backend_metadata, get_backend_bibtex, AvailableBackends")],["return values and errors"])
p("S01","The online update check is rate limited, fault tolerant and crash safe",
 "The version lookup contacts the network only when no sufficiently recent valid answer is stored, remembers only successful answers, and never raises, whatever the network returns and whatever state the stored file is in (missing, truncated, malformed, unwritable). A stored answer is used until its lifetime has elapsed since it was stored and never afterwards. Importing the package performs this check unless it is switched off in the environment (SPEY_CHECKUPDATE=OFF, however spelled); then nothing is asked or announced.",
 ["fault_sequences","crash_points","histories"],"all sequences of lookups, clock advances, network outcomes and file faults",
 "Tests check single round trips; expiry, failed answers and damaged files interact over sequences.",
 [WU],[("stored answer",WU)],["number of requests, results, file content"])
p("S02","Log capture is scoped and always restored",
 "While output capture is active only records at or above the chosen level are collected and the previous logging configuration is restored exactly on leaving, on every exit path, for nested captures, and for captures and disabling of several threads that overlap (once all of them have been left nothing of them remains). Initialising logging any number of times leaves exactly one handler that shows each record once, and formatting a record for one handler does not alter what other handlers see.",
 ["histories","fault_sequences","schedules"],"all nestings and overlaps of captures, log calls, exceptions and re-initialisations",
 "Tests check one capture.",
 [LG],[("capture",LG),("init",LG+":init")],["captured messages, logger level and handlers"])
p("S03","Bibliographic requests degrade gracefully",
 "A request for citation records returns the record text of the requested source for a successful answer, an empty answer for a refused or failed one, and raises nothing but the package's own connection error when the network is unreachable or too slow; the citation helpers built on it never raise for network reasons. A backend's citations list one entry per reference it declares, in order, from the source matching the reference kind.",
 ["fault_sequences","configurations"],"all combinations of reference lists and network outcomes",
 "Tests check one success and one failure.",
 [WU,IN],[("retrieval",WU+":get_bibtex"),("per backend",IN+":get_backend_bibtex, cite")],["returned records and requested addresses"])
p("X01","Merging bins conserves yields and correlations",
 "Merging groups of bins conserves the totals of every merged yield, forms the covariance of the sums, keeps all other bins and their correlations unchanged, and orders merged and kept bins as documented. Overlapping, duplicate or inconsistent groups are refused. Conversions between correlation and covariance matrices follow their definition and are inverse to each other.",
 ["inputs"],"all sets of bins, groups, covariances and yields",
 "Tests check one grouping.",
 ["src/spey/helper_functions.py"],[("merge","src/spey/helper_functions.py:merge_correlated_bins")],["merged arrays"])
p("X02","Likelihood contours lie on the requested level set inside the domain",
 "Every point reported on a confidence contour has a negative log-likelihood exceeding the best-fit value by half the requested chi-square quantile (within the stated tolerance), lies inside the parameter bounds, and two-dimensional projections lie on the boundary of the profiled region. The reported best fit and level are those of the same model and data.",
 ["inputs","configurations"],"all models of the simplified-likelihood family, dimensions, confidence levels, numbers of points and starting seeds",
 "Tests check one two-parameter Gaussian loosely.",
 [CT,"src/spey/multiparameter/multiparam.py"],[("contour walk",CT)],["contour points re-evaluated by the model"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:f.write(json.dumps(x)+"\n")
print(len(P))
