import json
D='src/distribution/'
A=lambda *n:[D+x+'.rs' for x in n]
ALL=A('bernoulli','beta','binomial','categorical','cauchy','exponential','gamma','gaussian','laplace','logistic','lognormal','pert','triangular','uniform')
CONT=A('beta','cauchy','exponential','gamma','gaussian','laplace','logistic','lognormal','pert','triangular','uniform')
DISC=A('bernoulli','binomial','categorical')
def P(id,title,st,over,q,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
unit='The unit tests compare a handful of fixed points of one or two parameter settings per distribution'
P_=[
P('P01','Every distribution function is a valid cumulative distribution function',
 'For every admissible distribution and every argument that is not NaN, infinities included, the distribution function returns a number in [0, 1] that is 0 at every point below the support, 1 at and above its finite upper end, and never decreases with the argument beyond rounding. For discrete distributions it is constant between integers: its value at x is its value at the floor of x.',
 ['inputs','configurations'],'all 14 distributions with their documented parameters; arguments from minus to plus infinity, next to every endpoint and branch point, one unit in the last place apart, and non-integer arguments of discrete laws',
 unit+' and never order two evaluations, look next to branch points, or pass infinities.',
 ALL,[('Distribution::distribution of each distribution','fn distribution in '+D+'*.rs'),('cumulative sums','Categorical::new in '+D+'categorical.rs')],['Distribution::distribution']),
P('P02','Distribution functions return the right probability, tails included',
 'For every admissible distribution and argument, the distribution function equals the probability that the distribution does not exceed the argument, to within rounding of its arguments and the accuracy of the special functions it rests on. This includes both tails (the lower one to full relative accuracy where the law has a closed form), every branch, arguments at and next to endpoints, and binomial laws of up to 10^12 trials.',
 ['inputs','configurations'],'all 14 distributions: shapes 1e-2 to 1e4 (and from 1e-15 to 5e8 for gamma, 1e-12 to 1e5 for beta laws), scales and locations over ten or more decades (continuous laws: to 1e±250) and up to thirteen decades apart, n to 1e12 (rare events) and 1e6 (any p); arguments in the body, in tails and at branch points',
 unit+', almost all in the body of the law; branches, tails and extreme parameters are unsampled.',
 ALL,[('closed forms and special functions','fn distribution in '+D+'*.rs'),('regularised incomplete beta function with reflected arguments',D+'binomial.rs, '+D+'beta.rs')],['Distribution::distribution']),
P('P03','Densities return the right value everywhere, including edges and far tails',
 'For every admissible continuous distribution and every argument that is not NaN, the density is a non-negative number, is zero outside the support and at infinities, and equals the textbook density inside to within rounding. At a finite end of the support it is the one-sided limit (infinite where the density has a pole) or zero, and far in the tails it decays to zero and is never NaN.',
 ['inputs','configurations'],'the 11 continuous distributions; arguments in the body, on and next to endpoints and branch points, in tails to 1e300, at infinity and at subnormal numbers',
 unit+' in the body, where no intermediate result overflows, underflows or cancels.',
 CONT,[('Continuous::density of each distribution','fn density in '+D+'*.rs')],['Continuous::density']),
P('P04','The density is the derivative of the distribution function',
 'For every admissible continuous distribution and every interval, the integral of the density over the interval equals the increase of the distribution function over it. In particular the density integrates to one over the support.',
 ['inputs','configurations'],'the 11 continuous distributions and pairs of arguments inside, across and outside the support and its branch points',
 'The unit tests check density and distribution function against separate tables and never against each other.',
 CONT,[('fn density and fn distribution agree',D+'*.rs')],['Continuous::density','Distribution::distribution']),
P('P05','Masses are right, vanish off the support and add up to the distribution function',
 'For every admissible discrete distribution, the mass of a value is the probability of that value to within rounding, lies in [0, 1], and is zero for values that cannot occur. The running sum of the masses equals the distribution function at every value, and the masses of all values sum to one.',
 ['inputs','configurations'],'Bernoulli, binomial (n to 1e15) and categorical (to 70 000 categories, empty ones included) distributions and all values, also above the support',
 unit+'; the branches for small and large n, values near the ends of the support, and empty categories are unsampled.',
 DISC,[('Loader saddle-point mass',D+'binomial.rs: fn mass, ln_stirling_error and deviance helpers'),('fn mass',D+'bernoulli.rs, '+D+'categorical.rs')],['Discrete::mass','Distribution::distribution']),
P('P06','Continuous quantiles invert the distribution function',
 'For every admissible continuous distribution with a quantile function and every probability in [0, 1], the quantile lies in the closed support, is finite for probabilities strictly between 0 and 1 (unless the exact quantile is too large a number), is the lower or upper end of the support at 0 and 1, and never decreases with the probability. The probability of not exceeding it is the given one to within the rounding of the quantile and the accuracy of the distribution function.',
 ['inputs','configurations'],'the 10 invertible continuous distributions (all but gamma); probabilities from 5e-324 to 1 - 2^-53, 0, 1, and values of the distribution function',
 unit+' with probabilities at multiples of 0.05; no test inverts a tail or checks order.',
 CONT,[('closed-form inverses','fn inverse in '+D+'*.rs'),('bisection over doubles','fn inverse at the end of '+D+'beta.rs')],['Inverse::inverse','Distribution::distribution']),
P('P07','Discrete quantiles are the least value whose cumulative probability suffices',
 'For every admissible discrete distribution and every probability in [0, 1], the quantile is the least value whose cumulative probability is at least the given one; at a probability within rounding of a step of the distribution function either neighbouring value may be returned. It is always a value of the support and never decreases with the probability.',
 ['inputs','configurations'],'Bernoulli, binomial (n to 1e9, all solution methods and the boundaries between them) and categorical distributions; probabilities at and next to steps, in both tails, 0 and 1',
 unit+'; the binomial quantile alone has four methods with switching conditions in n, p and the variance, of which the tests take a few points.',
 DISC,[('summation from below and above, Newton, normal approximation',D+'binomial.rs: fn inverse'),('scan of cumulative sums',D+'categorical.rs: fn inverse')],['Inverse::inverse']),
P('P08','Medians split the probability in half',
 'For every admissible distribution with a median, the median lies within the support, and the distribution puts at least one half on values up to it and at least one half on values from it on (equality for continuous distributions, to within the accuracy of the distribution function or, for beta distributions with both shapes above one and unequal, of the documented approximation). Where a discrete distribution function takes the value one half over an interval, a point of that closed interval is returned.',
 ['inputs','configurations'],'all distributions with a median',
 unit+', chosen where closed forms apply.',
 ALL,[('fn median of each distribution',D+'*.rs')],['Median::median','Distribution::distribution']),
P('P09','Modes are exactly the points of greatest density or mass',
 'For every admissible distribution with modes, the reported modes are in increasing order without repetition, lie in the support, and are exactly the points of greatest mass (all of them when masses tie) or the textbook modes of the density. The set is empty only where no point stands out, as for a uniform density.',
 ['inputs','configurations'],'all distributions with modes, ties and boundary shapes included; binomial n to 2^63',
 unit+'; most branches over shape parameters have one sample or none.',
 ALL,[('fn modes of each distribution',D+'*.rs')],['Modes::modes','Continuous::density','Discrete::mass']),
P('P10','Mean, variance and standard deviation are those of the distribution',
 'For every admissible distribution with these moments, the mean, the variance and the standard deviation equal the exact moments of the distribution to within rounding, whatever the scale and location. The variance is not negative, the standard deviation is its square root, and the mean lies within the support. The standard deviations of Gaussian, Laplace and exponential distributions, which are parameters or follow from one, are right also at scales whose squares overflow or underflow.',
 ['inputs','configurations'],'all 13 distributions with moments, over the parameter ranges of P02; n to 1e18',
 unit+', so terms that cancel, vanish or coincide at those settings are not seen.',
 ALL,[('fn mean, fn variance, fn deviation',D+'*.rs, '+D+'mod.rs')],['Mean::mean','Variance::variance','Variance::deviation']),
P('P11','Skewness and excess kurtosis are those of the distribution',
 'For every admissible distribution with these moments and a positive variance, the skewness and the excess kurtosis equal the exact standardised moments to within rounding, do not depend on scale or location, and satisfy kurtosis >= skewness^2 - 2.',
 ['inputs','configurations'],'all 13 distributions with moments, over the parameter ranges of P02',
 unit+', often symmetric ones where whole terms vanish.',
 ALL,[('fn skewness, fn kurtosis',D+'*.rs')],['Skewness::skewness','Kurtosis::kurtosis']),
P('P12','Entropies are the exact expected surprisals, in nats',
 'For every admissible distribution, the entropy equals the differential entropy (continuous) or Shannon entropy (discrete) of the distribution in nats, to within the accuracy of the special functions or masses it is computed from. For discrete distributions it lies between zero and the logarithm of the number of values, and categories of probability zero contribute nothing.',
 ['inputs','configurations'],'all 14 distributions over the parameter ranges of P02; binomial n to 2e5 across the switch between summation and expansion; lognormal mu to ±1e6',
 unit+'; degenerate masses, large n and extreme shapes are unsampled.',
 ALL,[('fn entropy',D+'*.rs')],['Entropy::entropy']),
P('P13','Samples stay in the support for every source, and sampling ends',
 'For every admissible distribution and every source of random words, including adversarial runs of extreme words, each sample is a number of the closed support, never NaN, never of probability zero for a categorical distribution, and is obtained from a bounded number of words once the source goes on like a random one.',
 ['inputs','configurations','fault_sequences'],'all 14 distributions, also with shapes down to 1e-5; source words 0, 2^64 - 1, powers of two, runs of ones, then pseudorandom words',
 'The unit tests draw at most a few thousand samples from one well-behaved generator and one setting.',
 ALL+['src/sampler/mod.rs'],[('fn sample',D+'*.rs'),('Marsaglia-Tsang rejection',D+'gamma.rs: fn sample'),('ziggurat',D+'gaussian.rs: fn sample')],['Sample::sample']),
P('P14','Samples follow the distribution',
 'For every admissible distribution, samples drawn from a good source of random words have the frequencies given by the distribution function, in the body and in the tails, down to small systematic errors; successive samples are independent, and samples of a continuous distribution are finely resolved, so that coincidences among millions of them are rare.',
 ['inputs','configurations'],'all 14 distributions, moderate and extreme shapes, random seeds; 20000 samples per case, 2 to 64 million for plain settings, and 33 to 270 million with evenly spread first words',
 'The unit tests compare no sample frequencies, or one Kolmogorov-Smirnov statistic at one setting.',
 ALL,[('fn sample',D+'*.rs'),('ziggurat tables',D+'gaussian.rs'),('boost for small shapes',D+'gamma.rs')],['Sample::sample','Distribution::distribution']),
P('P15','Sampling is a pure function of the distribution and the source',
 'A sequence of samples is determined by the distribution and the words of the source alone: equal distributions and equal sources give identical sequences, one sample at a time or through the independent sampler, whole, in parts or by any of the methods of its iterator (nth, skip, step_by and so on), and whatever else is called in between. The independent sampler never ends, yields exactly the samples that direct sampling would, and reads no more of the source than the samples taken need.',
 ['inputs','histories','configurations'],'all 14 distributions; scripted and pseudorandom sources and the default source; any number of samples and any split into parts',
 'The unit tests take one sequence from one source and never compare two ways of taking it.',
 ALL+['src/sampler/mod.rs','src/source/mod.rs'],[('Independent',  'src/sampler/mod.rs'),('fn sample',D+'*.rs')],['Sample::sample','Independent::next']),
P('P16','Construction accepts exactly the documented parameters and keeps them',
 'With debug assertions on, every constructor accepts parameters within its documented domain and panics on parameters outside it, NaN included, and quantile functions likewise accept exactly the probabilities in [0, 1]. Accessors, also of a copy, return the given parameters unchanged (and complements and PERT shapes to within rounding), the defaults are the standard distributions, and the two constructors of Bernoulli and binomial distributions agree, certain binomial laws included.',
 ['inputs','configurations'],'parameters on, next to and beyond every documented boundary, signed zeros, subnormals and NaN; probabilities summing to one within 1e-12; p and q in {0, 1} for the binomial distribution',
 'The unit tests construct from valid, mid-range parameters only and rarely read them back.',
 ALL+['src/lib.rs'],[('should!','src/lib.rs'),('fn new, fn with_failure, accessors, Default',D+'*.rs')],['constructors','accessors','Inverse::inverse']),
P('P17','A Gaussian collected from samples has their mean and deviation',
 'For every finite sequence of at least two finite samples that are not all equal, the Gaussian distribution collected from them has their arithmetic mean and the square root of their unbiased variance as parameters, to within rounding, irrespective of the order of the samples and of the kind of iterator. In all other respects it is the Gaussian distribution with these parameters.',
 ['inputs'],'2 to 3000 samples; offsets to 1e8 spreads, scales 1e-130 to 1e130, outliers, repeated values',
 'The unit tests infer from one fixed sequence.',
 A('gaussian'),[('FromIterator',D+'gaussian.rs')],['iter.collect::<Gaussian>()']),
P('P18','Everything moves with a change of unit, a shift or a reflection',
 'When a distribution is scaled, shifted or reflected by changing its parameters accordingly, its distribution function, density, quantiles, mean, median, modes, variance and entropy change as those of k X + m must, and skewness and kurtosis do not change, or change sign under reflection; samples from the same source words scale and shift alike. Swapping success and failure of a Bernoulli or binomial distribution, or reversing a categorical one, reflects the counts, and powers of a lognormal variable are lognormal.',
 ['inputs','configurations'],'all families closed under the transformation; dyadic scales and shifts for which the transformation is exact',
 'The unit tests relate no two parameter settings to each other.',
 ALL,[('location and scale parameters throughout',D+'*.rs')],['all distribution traits']),
P('P19','Distributions that coincide or are linked agree with each other',
 'Where two families describe the same law (gamma of shape one and exponential, beta of shapes one and uniform or triangular, PERT and its beta distribution, binomial of one trial and Bernoulli, binomial and the categorical distribution of its masses), all quantities both offer agree to within rounding. The exact relations between families hold as well: lognormal and Gaussian, logistic and Laplace and Cauchy closed forms, sums of gamma and binomial probabilities, and recurrences over shapes and trials.',
 ['inputs','configurations'],'random members of each special case and random arguments',
 'The unit tests look at each distribution on its own.',
 ALL,[('independent implementations of the same law',D+'*.rs')],['all distribution traits']),
P('P20','Every operation returns a sound value for extreme parameters',
 'For every admissible distribution, also with very large, very small or very skewed parameters, every operation terminates without panicking or overflowing and returns neither NaN nor a value outside its range: probabilities in [0, 1], densities, variances and deviations not negative, quantiles, means, medians, modes and samples within the closed support, and discrete entropies between zero and the logarithm of the number of values.',
 ['inputs','configurations'],'scales 1e-250 to 1e250, log-scales to 1e3, shapes 1e-5 to 1e6 (beta: 1e-3 to 1e5), probabilities 1e-300 to 1 - 2^-53, n to 1e9, arguments to 1e300 and infinities',
 'The unit tests stay with everyday parameters; release builds hide integer overflow.',
 ALL,[('every trait method',D+'*.rs')],['all distribution traits']),
]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p,ensure_ascii=False)+'\n' for p in P_))
T={'P01':'metamorphic and invariant checks of generated points','P02':'differential testing against a double-double reference','P03':'differential testing against a double-double reference','P04':'metamorphic: quadrature against differences','P05':'differential testing and running-sum invariant','P06':'inverse round-trip against a double-double reference','P07':'validity predicate on generated steps, double-double reference','P08':'validity predicate against a double-double reference','P09':'validity predicate and exact reference sets','P10':'differential testing against double-double closed forms','P11':'differential testing against double-double closed forms','P12':'differential testing against double-double closed forms','P13':'adversarial source words, support invariant, fuel','P14':'generated statistical goodness-of-fit tests','P15':'differential replay of sampling histories','P16':'generated boundary parameters against the documented domain','P17':'differential testing against double-double moments','P18':'metamorphic relations under exact transformations','P19':'differential testing between families','P20':'fuzzing with extreme parameters, totality and range invariants'}
N={'P14':'Rejects at p < 1e-11 per test, so about one false alarm in 10^6 runs; deviations smaller than about 2 % of a probability go unseen for arbitrary settings, 0.1 % for plain ones (for samplers that read one word, 10^-5).',
'P12':'One open finding (a wrong constant pinned by existing tests) is recognised by its exact size.','P05':'One open finding (a wrong constant pinned by existing tests) is recognised by its exact size.',
'P07':'One open finding (off by one in one solution regime, pinned by existing tests) is recognised by regime and size.','P08':'One open finding (the half-way value of categorical medians, pinned by existing tests) is recognised by its exact value.',
'P16':'Assumes debug assertions are on, as in the test suite; locations are not documented to be checked and are not.','P20':'A case that takes more than 60 s of CPU time counts as not terminating; the slowest ordinary one takes 0.3 s.'}
base='Generated-input search with shrinking; no proof of absence. Trusts the double-double reference (checked against mpmath by the harness tests) and the stated rounding bounds. '
m=dict(version=1,setup_cmd='./check.sh --build',checks=[dict(property=p['id'],quick_cmd=f"./check.sh {p['id']}",thorough_cmd=f"./check.sh {p['id']} --thorough",technique='property-based testing: '+T[p['id']],level='exploration',level_note=base+N.get(p['id'],'')) for p in P_],not_applicable=[],notes='No hooks in /repo. known_findings.txt lists open findings and fixes; harness/regressions.txt holds a saved case of each.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
