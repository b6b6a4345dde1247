import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
A='atomtoolkit/atom.py';H='atomtoolkit/atom_helpers.py';T='atomtoolkit/term.py';U='atomtoolkit/util.py';S='atomtoolkit/transition_strengths.py';W='atomtoolkit/wigner.py';IO='atomtoolkit/IO.py'
p('C01','Every level splits into its complete, correctly labelled set of sublevels',
 "For a fine-structure level of angular momentum J in an atom of nuclear spin I, the hyperfine sublevels are exactly one per F = |J-I|, ..., J+I in unit steps, and each holds exactly one Zeeman sublevel per mF = -F, ..., F. Every sublevel keeps the configuration, term, J and parity of its level, is named and keyed by its own F (and mF), and reports its parent, manifold and atom. This is so whichever access (length, iteration, indexing, keys, values, items, or eager population on adding the level) asks first, and whether I and J were given as numbers or as fraction text.",
 ['inputs','histories'],'all I and J (integer and half-integer), all first-access paths, lazy and eager population',
 'The tests look at three levels with I=0 and I=1/2 and mostly compare lengths; the rule is over every (I, J) pair and every way of asking first.',
 [A,T,U],[('lazy population',A+': lazy_compute_sublevels, populate_sublevels'),('term copies',T+': make_term_copy')],
 ['level.keys/values/items/sublevels/len/iter/[..]','level.term, .name, .parent, .manifold, .atom'],
 [('sublevel dictionary','F or mF label -> sublevel, filled on first use',A+': BaseLevel')])
p('C02','Sublevel energies follow the hyperfine and Zeeman formulae, and stay current',
 "A hyperfine sublevel lies at its level's energy plus the magnetic-dipole, electric-quadrupole and magnetic-octupole shifts given by the level's A, B and C constants (the quadrupole term vanishing unless I, J >= 1 and the octupole unless I, J >= 3/2), normalised so that the stretched state F = I+J is shifted by A*I*J + B/4 + C; a Zeeman sublevel lies at its hyperfine energy plus gF*mF*muB*B plus its quadratic coefficient times B squared, gF following from the level's Lande value unless it was set on the hyperfine level. Energies and shifts read at any time agree with the current centroid, constants, field and quadratic coefficients, in whatever order and units those were last set. The (2F+1)-weighted hyperfine shifts of a level, and the linear Zeeman shifts of a hyperfine level, sum to zero.",
 ['inputs','histories'],'all I, J, F, mF; all signs and combinations of A, B, C, g, B-field; all orders of changing them before and after sublevels exist',
 'The tests only check that constants read back; no test evaluates a hyperfine or Zeeman shift, and none changes a constant after sublevels exist.',
 [A,'atomtoolkit/__init__.py'],[('hyperfine shift',A+': HFLevel.compute_hf_shift'),('Zeeman shift',A+': ZLevel.shift_Hz, HFLevel.compute_gF')],
 ['level.level, level.level_Hz, level.shift, level.shift_Hz at all three tiers'],
 [('hfA/hfB/hfC, level energy, atom B, quadratic_zeeman','inputs of the energy formula',A)])
p('C03','Assigning an energy to any sublevel moves its whole manifold rigidly',
 "Assigning an energy (in any frequency or wavenumber unit) to a fine-structure, hyperfine or Zeeman level makes exactly that level have that energy. It does so by translating the whole manifold: every energy difference inside the manifold is unchanged, and no level of any other manifold moves.",
 ['inputs','histories'],'all levels at all tiers, all target energies, with and without hyperfine structure and field, any sequence of moves interleaved with other edits',
 'The tests assign three energies in an atom with I=0, no hyperfine constants and B=0, where every sublevel coincides with its manifold.',
 [A],[('level setters',A+': BaseLevel.level, EnergyLevel.level_Hz, HFLevel.level')],['level.level / level_Hz of all levels before and after'])
p('C04','Networks of assigned transition frequencies are satisfied by the level energies',
 "When a transition frequency is assigned, or a transition with an assigned frequency is added, the levels are placed so that every transition of the connected network of assigned-frequency transitions has its assigned frequency, whenever the network is loop-free or its loops are self-consistent, whatever order the assignments (and reassignments) were made in; the network's lowest level among those already placed by an earlier assignment (or the lowest of all if none was) keeps its energy. A network the change does not belong to stays put if it was satisfied, and a level in no assigned-frequency transition never moves. A loop whose frequencies cannot all hold raises a warning; a satisfiable network raises none.",
 ['histories','inputs'],'all histories of adding transitions, assigning and reassigning frequencies and moving levels over chains, V, Lambda, star and loop networks',
 'The tests assign the frequency of a single transition; no test builds a network of two assigned transitions, reassigns one inside a chain, or closes a loop.',
 [A],[('constraint propagation',A+': Atom.enforce_consistency, Transition.set_frequency, Atom.add_transition')],
 ['transition.freq, level.level, warnings'],[('set_freq, fixed','assigned frequency of a transition / level already placed',A)])
p('C05',"A transition's frequency is the level gap and can be assigned at every tier",
 "At every tier a transition's frequency equals the absolute difference of its two levels' energies at that moment, and its wavelength is the speed of light over it. Assigning a frequency to a fine, hyperfine or Zeeman transition, as frequency, wavenumber or wavelength and by either assignment form, makes that very transition have it, provided no other assigned transition constrains it. The assignment shifts the fine-structure transition by the same amount, leaves hyperfine and Zeeman splittings unchanged, and leaves the lower level where it was unless the upper one is held by another assigned transition.",
 ['inputs','histories'],'all transitions at all tiers, with hyperfine structure of either sign and a field, all units, repeated and interleaved assignments',
 'The tests assign frequencies at each tier only in an atom without hyperfine or Zeeman structure, where all tiers coincide, and only in THz.',
 [A],[('set_frequency',A+': Transition, HFTransition, ZTransition'),('freq',A+': BaseTransition.freq_Hz, freq, wl')],['transition.freq, freq_Hz, wl; level energies'])
p('C06','Every documented key of a level resolves to the same level object',
 "The same object is returned for a level's full name, any alias, its rank in energy, and, for sublevels, a spaced path 'config term F=.. mF=..', a partial path followed by indexing, nested indexing from the level, and (when I=0) the mJ form. Integer and slice keys rank the atom's fine-structure levels by their current energy. A key naming nothing raises KeyError (IndexError for a rank) and changes nothing.",
 ['inputs','histories'],'all atoms (I zero or not, F and mF negative, zero, integer and half-integer), all insertion orders, all key spellings, after levels have been moved or aliased',
 'One test compares five spellings for one level with I=0; ranks, slices, missing keys, I>0 and moved levels are untested.',
 [H,A],[('level key parsing',H+': LevelStructure.__getitem__'),('nested access',A+': BaseLevel.__getitem__')],['atom.levels[key]'])
p('C07','Every documented key of a transition resolves to the one right transition',
 "A fine, hyperfine or Zeeman transition is returned, as the same object, for the pair of its levels' keys in either order, where each level may be given by name, alias, level object or (for fine structure) energy rank; by a transition alias; and by nested indexing from its parent transition with the (lower, upper) sublevel labels. The object returned always joins exactly the two levels the key names, whatever order the levels were added in and however their energies have been moved since. A pair not joined by a transition raises KeyError.",
 ['inputs','histories'],'all pairs at all tiers, both orders, all insertion orders, after energy order has changed',
 'The tests look up two transitions whose levels were added in energy order, in an atom with a single hyperfine level per manifold, so crossed label pairs and insertion order never matter.',
 [H,A],[('transition key parsing',H+': TransitionStructure.__getitem__'),('nested access',A+': BaseTransition.__getitem__')],['atom.transitions[key], transition[key]'])
p('C08','Level and transition containers mirror the history of additions and removals',
 "After any history of adding, removing and aliasing, the level and transition containers hold exactly what was added and not removed: their length, iteration, keys, values and name lists agree with it, and a transition that brings along levels the atom lacks adds those levels. An alias resolves to the object it was last given to, and removing a level (by name or alias) removes its transitions and makes it and them unreachable by name and alias. Adding an object again has no effect beyond the first.",
 ['histories'],'all interleavings of adding and removing levels and transitions (as objects, keyed assignment, constructor lists, name pairs) and of assigning aliases',
 'The tests add objects once to one atom and never remove anything.',
 [A,H],[('add_level/add_transition',A+': Atom'),('dict interface',H)],['atom.levels, atom.transitions (len, iter, keys, values, list_names, [..], in)'])
p('C09','Exactly the transitions permitted by the selection rules exist',
 "A fine-structure transition is E1 exactly when parity changes and |dJ|<=1, M1 exactly when parity is kept and |dJ|<=1, and E2 exactly when parity is kept, |dJ|<=2 and the two levels differ. Its hyperfine components are exactly the pairs of hyperfine levels with |dF|<=1 (|dF|<=2 if only E2 is permitted) for which the rank-1 or rank-2 recoupling coefficient of a permitted type is non-zero, and their Zeeman components exactly the pairs with |dmF| in the same range whose 3j coefficient of a permitted type is non-zero; each component permits only types its parent permits. Components exist once each, whichever access asks first, and no forbidden pair is reported as linked.",
 ['inputs'],'all I, J, F, mF and parities',
 'The tests never look at which components exist: one hyperfine pair and one Zeeman pair are fetched by key.',
 [A,W],[('selection rules',A+': transition_allowed, _compute_sublevel_pairs, populate_subtransitions'),('zero coefficients',W)],['transition.allowed_types, transition.keys/values/subtransitions, atom.linked_levels'])
p('C10','Component strengths follow angular-momentum algebra and obey the sum rules',
 "A hyperfine component's strength relative to its parent is (2F+1)(2F'+1){6j}^2 and a Zeeman component's relative to its hyperfine parent is the squared 3j coefficient, with rank 1 if the parent permits E1 or M1 and rank 2 if it permits only E2; its A coefficient is the parent's present A times that strength, in Hz, unless the component was given one of its own, which then counts for its Zeeman components too, until it is taken back. The strengths of all hyperfine components from one F of the upper level sum to (2F+1)/(2J+1), and those of all Zeeman components of a hyperfine component sum to one. A transition without an A coefficient gives components none.",
 ['inputs'],'all I, J, J\', F, F\', mF, mF\', parities and A values and units',
 'No test evaluates a relative strength or a component A coefficient.',
 [A,W],[('line strengths',A+': HFTransition.compute_linewidth, ZTransition.compute_linewidth')],['transition.rel_strength, transition.A'])
p('C11','Branching ratios and lifetimes come from exactly the decays out of the level',
 "The branching ratios of a level, at any tier, list exactly the levels it is linked to from above, each with its share of the total A coefficient, so that they sum to one whenever there is any decay and are empty otherwise; a missing A coefficient on such a decay raises ValueError. The lifetime is 2*pi over the same total, infinite when there is no decay. Both depend only on the A values themselves, not on the units, the order in which transitions or levels were added, or the key used for the level.",
 ['inputs','histories'],'all networks of levels and A coefficients in any units, including A set after creation, upward links, self links and missing A',
 'The tests use one three-level atom with A given in one family of units and keys by full name only.',
 [A],[('decays',A+': Atom.linked_levels, state_lifetime, compute_branching_ratios')],['atom.compute_branching_ratios, state_lifetime, linked_levels'])
p('C12','Bulk population adds exactly the requested permitted transitions',
 "Populating transitions for a choice of E1, M1 and E2 adds one transition for every pair of levels permitted by a chosen type and for no other pair, leaves transitions that already exist untouched, and is idempotent. Populating internal transitions adds one self-transition per level. Populating from a table adds one transition per row whose two levels exist, with the row's A coefficient and frequency, the frequency being enforced on the level energies.",
 ['inputs','histories'],'all level sets (J, parity, order), all choices of types, atoms with and without existing transitions, all tables',
 'The test of populate_transitions is an empty TODO and nothing covers the other two.',
 [A],[('bulk population',A+': populate_transitions, populate_internal_transitions, populate_transitions_df')],['atom.transitions after population'])
p('C13','Saving and loading an atom preserves everything observable',
 "Loading a saved atom yields an atom with the same name, nuclear spin, field, levels, sublevels, energies, constants, Lande values, aliases, transitions, assigned frequencies, A coefficients and component structure, whether or not sublevels and components had been asked for before saving; subsequent edits behave on it as on the original and never affect the original. The file is named as asked with the extension .atom supplied only when missing, wherever in the path dots appear. Loading a file that holds something else raises an error.",
 ['histories','inputs'],'all edit histories before and after the save, all file names',
 'The tests save one freshly built atom and check the loaded name only.',
 [A],[('pickling',A+': Atom.save, Atom.load')],['Atom.save / Atom.load and the full public projection of the atom'])
p('C14','Hyperfine tables round-trip through CSV',
 "Writing an atom's hyperfine constants to CSV and applying the file to an atom with the same levels gives every level the constants it had, to the last bit, for any level names (commas, quotes, brackets), signs and units; the default A value is substituted exactly for zero A, and a blank table zeroes all constants. Rows naming levels the atom lacks are skipped without affecting the others, and levels without a row keep their constants.",
 ['inputs'],'all sets of levels and constants, all subsets and orders of rows',
 'Nothing tests the CSV functions.',
 [IO],[('hyperfine CSV',IO+': generate_hf_csv, apply_hf_csv')],['file contents; level.hfA/hfB/hfC'])
p('C15','Imported level tables become exactly the levels they describe',
 "Reading a NIST-format level table yields one row per level with defined numeric energy below the first ionisation limit and per alternative J value, in table order, with its energy, J, Lande value, configuration and term, taking a missing term from the leading percentages, and with percentages and second component filled in as the table says. Building an atom from the table gives one level per row (at most the requested number) with that energy, those quantum numbers and that Lande value, computing the Lande value when the table has none. Building a full atom also applies the hyperfine file, adds the transitions of the table (or the permitted ones if there is none) and one internal transition per level.",
 ['inputs'],'all tables: blank, bracketed and quoted fields, missing terms, several J values, with or without Lande and percentage columns, limits at any row, any requested number of levels',
 'from_dataframe is an empty TODO in the tests, and the NIST reader is only run by hand against the live site.',
 [IO,A,T],[('NIST reader',IO+': _load_NIST_data'),('construction',A+': Atom.from_dataframe; '+IO+': generate_full_from_dataframe; '+T+': MultiTerm.from_dataframe')],['the data frame; atom.levels, atom.transitions'])
p('C16','Spectroscopic notation parses to the right coupling scheme and quantum numbers',
 "For every configuration and term symbol in LS, JJ, JK or LK notation of the forms the documentation lists, the coupling scheme is recognised and exactly the ancestor quantum numbers the notation states are extracted; parity is odd exactly when the term carries the odd mark; and name, full name and short name are composed of configuration, term, J, F and mF. Copies for sublevels keep all of these and add F and mF. A mixture of terms presents the properties of its component with the largest percentage, and equals a mixture with equal components.",
 ['inputs'],'the grammar of the four notations: all multiplicities, letters, J and K values, odd marks, with ancestors in the configuration or in the term',
 'The tests sample 19 fixed strings.',
 [U,T],[('parsers',U+': get_term_coupling, parse_*_term, get_quantum_nums'),('Term',T)],['util.get_term_coupling, util.get_quantum_nums, Term and MultiTerm attributes'])
p('C17','Half-integer and orbital-letter notation converts faithfully both ways',
 "Every integer or half-integer, positive, negative or zero, as a number, decimal text or fraction text, converts to its canonical text (whole number or n/2) and back to the same value, missing values stay missing, and text that is no number raises ValueError. Orbital letters map to 0, 1, 2, ... in the order S P D F G H I K L M N O Q R T U V W X Y Z in either case and back. Values without a letter, and arguments of the wrong kind, raise an error and never yield a wrong answer.",
 ['inputs'],'all half-integers over a range beyond any atom and all letters and non-letters',
 'The tests sample a dozen values.',
 [U],[('conversions',U+': frac_to_float, float_to_frac, let_to_l, l_to_let')],['the four conversion functions; labels of terms and sublevels'])
p('C18','Lande factors follow the vector model for every coupling scheme',
 "A level created without a Lande value gets the mean, weighted by leading percentages (including equal ones), over its components, of 1 + 1.0023*(J(J+1)+S(S+1)-L(L+1))/(2J(J+1)) averaged over the component's LS composition with squared recoupling coefficients as weights, and zero for J=0; a given value is kept as is. A hyperfine sublevel has gF = gJ*(F(F+1)+J(J+1)-I(I+1))/(2F(F+1)), zero for F=0, so every Zeeman energy is a finite number.",
 ['inputs'],'all terms in LS, JJ, JK and LK coupling and their mixtures, all I, J, F',
 'No test evaluates a Lande factor.',
 [A,S],[('gJ',A+': EnergyLevel.compute_gJ'),('gF',A+': HFLevel.compute_gF')],['level.lande, sublevel.gF, Zeeman energies'])
p('C19','Recoupling to LS gives a normalised, complete decomposition',
 "Recoupling a JJ, JK or LK state to LS lists every (L, S) that the coupled orbital and spin momenta allow, once each, with the recoupling coefficient of angular-momentum theory (up to an overall sign convention): its squares sum to one for every valid state, its square equals the squared 6j/9j expression, and the signs of the components relative to each other are those of the coupled state. The readable forms list the same non-zero components as term letters with percentages, and an LS term decomposes into itself at 100 percent.",
 ['inputs'],'all valid combinations of lc, sc, lo, so, jc, jo, l, k, J within the range atoms use',
 'The readable couplings test is an empty TODO; nothing evaluates a decomposition.',
 [S,U],[('recoupling',S+': JJ_to_LS, JK_to_LS, LK_to_LS'),('readable forms',U+': term_to_LS, readable_*')],['the conversion functions'])
p('C20','Wigner coefficients are exact and vanish outside the selection rules',
 "The 3j, 6j and 9j coefficients equal their exact algebraic values, including sign, for all integer and half-integer arguments, and are ordinary numbers equal to zero whenever a triangle or projection rule is violated. They obey the orthogonality relations and the column-permutation symmetries.",
 ['inputs'],'all integer and half-integer arguments in the range atoms use, valid and invalid',
 'No test calls them directly; the lookups that use them never check a value.',
 [W],[('wigner functions',W)],['wigner3j, wigner6j, wigner9j'])
p('C21','Polarised transition strengths are consistent with tensor algebra',
 "The strength of one Zeeman component for tensor rank k and projection q is (2F+1)(2F'+1){6j}^2(3j)^2, zero unless the projections differ by q, and the matrix element squares to it; summed over all lower states and all q it is the same, 1/(2J'+1), for every upper state. For E1 and M1 with a real polarisation of any length the strength weights q=0 by the squared z component and q=+1 and -1 by half the squared transverse component each, and is the squared magnitude of the corresponding matrix element; the average strength (E2 too) is the mean over q, as isotropic light prefers no direction. For E2 with real orthogonal polarisation and propagation directions the strength is likewise the squared magnitude of the matrix element, and its sum over q weights does not depend on the directions; directions that are not orthogonal are warned of.",
 ['inputs'],'all I, J, F, mF at both ends; all real polarisations and (for E2) orthogonal propagation directions',
 'Nothing tests the transition_strengths module beyond importing it.',
 [S],[('tensor strengths',S+': tkq_*, E1_*, M1_*, E2_*')],['the strength and matrix-element functions'])
p('C22','Looking never changes an atom, and lazy structure is independent of read order',
 "Reading levels, sublevels, transitions, components, energies, linked levels, branching ratios, lifetimes, lookups by key (including failing ones), representations and drawing or plotting leaves everything else observable about the atom unchanged: energies, membership, names, aliases and the identity of objects handed out earlier. Two atoms with the same edit history but different reads interleaved are indistinguishable. Sublevels and components handed out earlier stay part of the atom: an edit made through them shows wherever the atom is looked at.",
 ['histories','inputs'],'all interleavings of reads with edits',
 'Each test performs one or two reads on a fresh atom; order dependence needs histories.',
 [A,H],[('lazy population',A+': lazy_compute_sublevels, lazy_compute_subtransitions'),('queries',A+': linked_levels')],['the full public projection before and after reads'])
p('C23','Grotrian diagrams place every level where its energy and quantum numbers say',
 "In a rendered Grotrian diagram each gross line lies at its level's energy in THz; with the hyperfine and Zeeman strategies there is one line per sublevel, at the level's energy plus the magnified shift (hf_scale, and additionally z_scale for the Zeeman part), evenly spaced instead in schematic spacing. Hyperfine lines are centred on the level with width proportional to 2F+1 (F at its maximum spanning the full width) and Zeeman lines are disjoint, in order of mF, and span no more than the full width; x0, x1, y0, y1, width and offset move or scale them as documented. Every bounding box encloses the lines of its sublevels, and a transition arrow runs between the anchor points of its lower and upper level.",
 ['inputs','configurations'],'all I, J, constants and fields; all three strategies and all documented layout options',
 'Nothing tests the rendering code.',
 ['atomtoolkit/render/grotrian.py'],[('row computation','atomtoolkit/render/grotrian.py: _compute_*_row, _*_level_table'),('rendering','atomtoolkit/render/grotrian.py: render_levels, render_transitions, compute_arrow')],['line, patch and collection coordinates of the rendered axes'])
p('C24','Plotted spectra show each line at its frequency with its strength',
 "A plotted hyperfine, Zeeman or gross spectrum draws one curve per component, labelled by its quantum numbers, peaking at the component's current frequency in the requested unit with height equal to its relative strength (times its entry in the amplitude table if given), and a total that is the sum of the curves over the range each is drawn on. The Lorentzian and Gaussian profiles are symmetric about their centre and fall to half (respectively exp(-1/2)) of their peak at half their width (respectively one sigma); a modulated line has sidebands at multiples of the modulation frequency. A coloring by lower or upper level or by transition type gives two curves one hue exactly if they agree in it (while the palette lasts), lighter for a higher second quantum number, whatever lines are plotted together.",
 ['inputs','configurations'],'all transitions, constants and fields, all line shapes and plot entry points',
 'Nothing tests the rendering code.',
 ['atomtoolkit/render/spectra.py','atomtoolkit/render/lineshapes.py'],[('plotting','atomtoolkit/render/spectra.py: plot_*'),('line shapes','atomtoolkit/render/lineshapes.py')],['x/y data and labels of the plotted lines'])
p('C25','A light field follows from its intensity, direction and polarisation',
 "A plane light field of intensity I along the unit vector k with the complex unit polarisation p has the electric field p E0 with E0 squared = 2I/(epsilon_0 c) and the magnetic field k x E / c, both the same whenever asked for: they are orthogonal to each other, the magnetic one to k, and for transverse polarisation their flux is I along k. A polarisation that is not a unit vector, longer or shorter, is refused.",
 ['inputs','configurations'],'all directions, real and complex polarisations, intensities in any unit',
 'Nothing tests the environment module.',
 ['atomtoolkit/environment.py'],[('light fields','atomtoolkit/environment.py: LightField')],['LightField(...).E(), .B()'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
from jsonschema import validate
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: validate(d,sch)
print(len(P))
