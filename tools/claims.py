DEFAULT_TECH='symbolic execution of the compiled library with a symbolic coordinate type; z3 decides every branch and assertion; counterexamples replayed natively'
DEFAULT_NOTE='Every execution path of the real code within the stated bounds (numbers of symbolic data, concrete preload, limits) is explored; each assertion is decided by z3 for all coordinate values in range. Bounded: nothing is claimed for more symbolic data or other configurations than listed in the evidence. Trusts z3, rustc, and the term-building coordinate type, which is cross-checked by replaying a sample of paths natively.'
TECH={}
NOTE={}
SPH=DEFAULT_NOTE+' Trigonometric functions are uninterpreted with bounds, periodicity, monotonicity and addition-theorem facts; comparisons of distances are decided with a margin of 2^-30.'
LEMMA=' The facts that the distance along a meridian is least at the foot, and that it grows with the longitude difference, are assumed (proved by hand in DESIGN.md).'
for i in ['P15','P16','P18','P19','P25']: NOTE[i]=SPH
NOTE['P17']=SPH+LEMMA
NOTE['P20']=SPH+LEMMA+' Longitude and latitude of the comparator are symbolic in boxes that together cover the stated area; products and sines are bounded by linear envelopes over each box; stalled linear queries get a second opinion from other solvers, and only unsat is taken from them.'
