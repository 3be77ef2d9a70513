TECH = {"proof": "contracts on the real functions; obligations generated by symbolic execution of the source, discharged by exact algebra and z3",
        "other": "contracts on the real functions, decided by bounded exhaustive enumeration against the contract"}
SE = "smeft"
# ------------------------------------------------------------------ exchange format
prop("P01", "Coefficient values are returned exactly as supplied, zero when absent",
     """For every set of coefficient values (real numbers, complex numbers, or real/imaginary mappings), a coefficient object
     returns for each name exactly the complex number that was supplied and zero for a name of its basis that was not supplied,
     and its dictionary and table views contain exactly the supplied names with the same numbers.""",
     "inputs", "all complex values and all real/imaginary spellings, for every coefficient name",
     "The tests look at one basis with a few fixed numbers; the claim is about every value, including purely imaginary, zero and missing ones.",
     "wilson/wcxf/classes.py",
     ["WC._to_number, WC._to_complex_dict, WC.dict2values@wilson/wcxf/classes.py:342", "WC.dict, WC.__getitem__, WC.df@wilson/wcxf/classes.py:363"],
     ["values|stored numbers per coefficient name|WC.values"], ["WC.dict", "WC[...]", "WC.df"],
     note="Proved for all values on both branches of the imaginary-part test; the table view is checked on enumerated values (bounded).")
prop("P02", "Coefficient, basis and EFT files survive a dump and load unchanged",
     """Writing a coefficient object to JSON or YAML (to a string or a stream) and loading it again gives an object with the same EFT,
     basis, scale, metadata and coefficient values; EFT and basis definitions survive the same round trip.""",
     "inputs", "all coefficient values, scales and extra metadata, every supported format and target",
     "Tests dump one object per format; the property is about all values and all output targets.",
     "wilson/wcxf/classes.py", ["WCxf.load / WCxf.dump@wilson/wcxf/classes.py:161", "_load_yaml_json@wilson/wcxf/classes.py:30"], (),
     ["WC.dump", "WC.load", "Basis.dump", "EFT.dump"],
     note="The json and yaml libraries are assumed to round-trip plain data (assumed contract); EFT and basis files bounded.")
prop("P03", "Bases inherit from their parent, and invalid data is rejected",
     """A basis that names a parent contains the parent's sectors and coefficients in addition to its own, the coefficient list of a basis
     is exactly the union over its sectors, and validation raises an error exactly when a basis has sectors unknown to its EFT or repeats a
     coefficient, or a coefficient file names an unknown EFT or basis or coefficients that are not in the basis.""",
     "configurations inputs", "all small EFT/basis/parent/coefficient constellations",
     "The tests contain one valid and one invalid example; the property quantifies over all constellations of sectors, parents and names.",
     "wilson/wcxf/classes.py", ["Basis.__init__ inheritance@wilson/wcxf/classes.py:218", "Basis.validate, WC.validate@wilson/wcxf/classes.py:253"],
     ["instances|registry of EFTs and bases|NamedInstanceClass"], ["Basis.all_wcs", "validate()"], level="other",
     note="Bounded: every constellation up to the bound stated in the evidence is enumerated against the contract; nothing is claimed beyond it.")
prop("P04", "Translating or matching uses exactly the registered function and parameters",
     """Translating or matching a coefficient object calls the function registered for exactly that (EFT, basis) pair with the object's
     values, scale and the caller's parameters, returns an object labelled with the target EFT and basis at the same scale that carries that
     function's values, is the identity for the own basis, and raises an error when no such function exists.""",
     "inputs configurations", "all coefficient values, scales, parameters and registered functions",
     "Tests exercise a couple of dummy functions; which function is selected and with what arguments must hold for every pair and value.",
     "wilson/wcxf/classes.py", ["WC.translate, WC.match@wilson/wcxf/classes.py:449", "Translator.translate, Matcher.match@wilson/wcxf/classes.py:490"], (),
     ["WC.translate", "WC.match"], note="The registered function is uninterpreted: the obligation holds for every function.")
prop("P05", "Registries follow every history of registrations and deletions",
     """After any sequence of creating, replacing, deleting and clearing EFTs, bases, translators and matchers, looking one up returns the
     most recently created one and fails if it was deleted or its creation failed, the lists of known bases and translators contain exactly the
     surviving ones, and the registries of different kinds of object never affect each other.""",
     "histories", "all sequences of creations, deletions and clear operations",
     "Tests perform one short history; the property is about every sequence.",
     "wilson/wcxf/classes.py", ["NamedInstanceClass@wilson/wcxf/classes.py:109", "EFT.known_bases, Basis.known_translators@wilson/wcxf/classes.py:205"],
     ["_instances|registry per class|NamedInstanceClass"], ["EFT[...]", "Basis[...]", "known_bases", "known_translators"],
     note="One-operation contract over an arbitrary registry (gives all histories by induction); explicit histories up to the stated bound as a cross-check.")
prop("P06", "EOS export adds the new-physics part to every Standard Model parameter",
     """The EOS parameter file contains exactly the parameters of the relevant EOS files, each with central, minimum and maximum equal to the Standard Model
     central value plus the real or imaginary part of the matching coefficient (zero if there is none); a lepton-generic charged-current parameter
     uses the electron coefficient and raises an error when the electron and muon values differ.""",
     "inputs", "all coefficient values and parameter values, every form of parameter name",
     "Tests convert one file; a sign or part mixed up for one form of name needs the right coefficient to show.",
     "wilson/wcxf/converters/eos.py", ["get_eos_np@wilson/wcxf/converters/eos.py:26", "wcxf2eos@wilson/wcxf/converters/eos.py:57", "get_sm_wcs@wilson/wcxf/converters/eos.py:10"],
     note="Which parameter files are read is bounded (scratch directories with up to 4 files).")
prop("P07", "The command line tools equal the library operations",
     """Converting between YAML and JSON keeps the document; the translate and match commands write the coefficients, scale, EFT and basis that the
     library translation or matching of the same file gives, in the requested format and to the requested output; validate accepts and rejects what the library
     validation does; the eos, DSixTools and SMEFTsim commands refuse invalid files and write what the library conversion of the file gives, with the given options, to
     the requested place.""",
     "inputs configurations", "all documents with symbolic numbers for the conversions; a fixed list of command lines for the argument handling",
     "Tests run single commands with default options.",
     "wilson/wcxf/cli.py wilson/wcxf/converters/yamljson.py", ["wcxf_cli, convert, translate, match, validate, eos@wilson/wcxf/cli.py:1",
     "convert_json, convert_yaml@wilson/wcxf/converters/yamljson.py:7"],
     note="json and yaml themselves are assumed contracts; argument handling is bounded (a fixed list of command lines in a scratch directory).")
prop("P08", "DSixTools files and coefficient dictionaries convert back and forth without loss",
     """Writing SMEFT coefficients to DSixTools blocks and reading them back gives the same symmetric coefficient arrays, with or without redundant and zero entries;
     dimensionful coefficients are multiplied by the high scale (squared, linear for dimension five) on input and divided again on output, and
     parameters, labels and scales survive the round trip; other EFTs and bases are rejected.""",
     "inputs", "all coefficient values with the operator symmetries, all scales and parameters",
     "Tests compare a file of sample numbers; one dropped or misplaced element among 2499 needs that element to be nonzero.",
     "wilson/wcxf/converters/dsixtools.py", ["wc_dict2lha, wc_lha2dict@wilson/wcxf/converters/dsixtools.py:122", "SMEFTio@wilson/wcxf/converters/dsixtools.py:221",
     "lha2matrix, matrix2lha, sm_dict2lha, sm_lha2dict@wilson/wcxf/converters/dsixtools.py:24"],
     note="pylha is an assumed contract. The theta angles are written and read in blocks but are not part of the symmetrised parameter set.")
prop("P09", "SMEFTsim cards contain every coefficient once with the right size and phase",
     """For both model sets and input schemes the card lists each baryon-number-conserving coefficient of the mass basis exactly once, at an index used once: the
     real value or the modulus and phase of the coefficient divided by its symmetry factor, times the cutoff scale squared, under the parameter name of
     that coefficient, plus the cutoff scale itself.""",
     "inputs", "all complex coefficient values and cutoff scales, all 2400 parameters of each card",
     "The test checks one entry of 2400; a swapped index elsewhere is invisible.",
     "wilson/wcxf/converters/smeftsim.py wilson/wcxf/cli.py", ["smeftsim_card_fill@wilson/wcxf/converters/smeftsim.py:92", "initialize_smeftsim_card@wilson/wcxf/converters/smeftsim.py:9"],
     note="Numbers written by format() are recovered symbolically; the six printed digits are not part of the claim. Card files are bounded (one file per option).")
# ------------------------------------------------------------------ arrays
prop("P10", "Packing coefficients into vectors and arrays is lossless",
     """For SMEFT (Warsaw) and WET (JMS) coefficients, converting a dictionary of coefficient arrays to the flat vector and back is the identity
     and every vector entry belongs to exactly one array entry; padding and unpadding between different generation numbers keeps every
     entry; every indexed coefficient name addresses exactly its array entry, and arrays that are missing are filled with zeros of the right shape.""",
     "inputs", "all complex array values, all coefficient names", "Tests check one random point; a permutation or dropped entry can hide in it.",
     "wilson/util/common.py", ["EFTutil.C_array2dict, C_dict2array@wilson/util/common.py:257", "pad_C, unpad_C@wilson/util/common.py:210",
     "wcxf2arrays, arrays2wcxf, add_missing@wilson/util/common.py:277"], (), ["EFTutil"])
prop("P11", "Symmetrisation completes every operator class by its index relations",
     """For every flavour-symmetry class, symmetrising an array that holds values in its independent entries returns the array that
     satisfies all index-permutation and hermiticity relations of the class and agrees with the independent entries, and each operator is treated by
     its own class.""",
     "inputs", "all complex values of the independent entries of all classes",
     "Tests sample random numbers for some classes; each relation between entries has to hold for every value.",
     "wilson/util/common.py", ["symmetrize_2 ... symmetrize_9@wilson/util/common.py:324", "EFTutil.symmetrize@wilson/util/common.py:899"])
prop("P12", "Independent coefficients and symmetric arrays carry the same Lagrangian",
     """Turning a dictionary of independent coefficients into flavour-symmetric arrays and back returns the same coefficients, the arrays
     have all flavour symmetries, and summing the arrays over all flavour indices gives the same Lagrangian as summing the independent
     coefficients, so each independent coefficient is shared by its symmetric copies with the right multiplicity.""",
     "inputs", "all complex coefficient values, every independent coefficient name, SMEFT and WET",
     "Tests probe a few names and one random point.",
     "wilson/util/common.py", ["wcxf2arrays_symmetrized@wilson/util/common.py:979", "arrays2wcxf_nonred@wilson/util/common.py:996",
     "symmetrize_nonred, unscale_dict@wilson/util/common.py:890"])
prop("P13", "JMS coefficient dictionaries expand to arrays with all redundant entries",
     """Expanding JMS coefficients of any sector to arrays places every coefficient at its own index, fills the entries related to it by
     hermiticity or operator exchange symmetry accordingly, leaves all other entries zero, and restricting to a sector only ever drops coefficients of other sectors.""",
     "inputs configurations", "all complex coefficient values, every WET sector",
     "Tests use a few single-coefficient examples out of thousands of names.",
     "wilson/util/wet_jms.py wilson/util/common.py", ["JMS_to_array@wilson/util/wet_jms.py:83", "_scalar2array, _symm_herm, _symm_current@wilson/util/wet_jms.py:41"])
prop("P14", "Redundant JMS coefficient names are mapped to their basis partner",
     """In a JMS coefficient dictionary a name that is not in the basis but is related to a basis name by hermiticity or exchange symmetry
     is replaced by that basis name with the correspondingly conjugated value, and names already in the basis keep their value.""",
     "inputs", "all complex values and all redundant names of the classes with two-fold exchange symmetry or hermiticity",
     "Tests cover a handful of names.", "wilson/util/wet_jms.py", ["symmetrize_JMS_dict@wilson/util/wet_jms.py:108"],
     note="The antisymmetrised baryon-number-violating class with three identical fields is excluded (the code drops such names).")
prop("P15", "Down-quark rotation and rescaling of WET arrays are exact field redefinitions",
     """Rotating WET coefficients into the mass basis of left-handed down quarks multiplies each left-handed down-quark index (and no other) by
     the given matrix (conjugated for conjugated fields), and scaling and unscaling of the WET coefficients are inverse to each other.""",
     "inputs", "all complex coefficient values and rotation matrices",
     "Tests do not compare each operator index against its field content.", "wilson/util/wet_jms.py",
     ["rotate_down@wilson/util/wet_jms.py:149", "scale_dict_wet, unscale_dict_wet@wilson/util/wet_jms.py:237"])
# ------------------------------------------------------------------ SMEFT running
prop("P16", "Flavour rotations act on every SMEFT coefficient as a unitary group action",
     """Rotating SMEFT parameters and coefficients by unitary matrices for the five fermion fields transforms every flavour index by
     the matrix of its field (conjugated for conjugate fields), so that the identity does nothing, successive rotations compose and
     the inverse rotation restores the input, for any subset of coefficients present.""",
     "inputs", "all coefficient values and all unitary matrices", "Tests compare single numbers at sample points.",
     "wilson/util/smeft_warsaw.py wilson/run/smeft/classes.py", ["flavor_rotation@wilson/util/smeft_warsaw.py:8", "SMEFT._flavor_rotation@wilson/run/smeft/classes.py:142"])
prop("P17", "SMEFT renormalisation group equations are flavour covariant",
     """The SMEFT beta functions commute with flavour rotations: every term carries the flavour indices of its operator on fields of the right
     type, so running rotated parameters gives the rotated result of running the original ones.""",
     "inputs", "all values of parameters and coefficients, all unitary flavour rotations",
     "The tests compare against one tabulated point, at which wrongly contracted indices of small terms are invisible.",
     "wilson/run/smeft/beta.py wilson/run/smeft/rge.py", ["beta@wilson/run/smeft/beta.py:37", "smeft_evolve_leadinglog@wilson/run/smeft/rge.py:33"],
     note="One recorded finding: a term of the beta function of dphi. Leading-log covariance is a bounded numerical check on top of the proved index typing.")
prop("P18", "SMEFT running preserves hermiticity and flavour index symmetries",
     """If the initial SMEFT coefficients satisfy hermiticity and the index-exchange (including Fierz) relations of their operator class, so do the
     beta functions, the leading-log result and the right-hand side handed to the integrator, for every operator.""",
     "inputs", "all parameter and coefficient values with the symmetries", "Tests never look at the relations between redundant entries after running.",
     "wilson/run/smeft/beta.py wilson/run/smeft/rge.py", ["beta, beta_array@wilson/run/smeft/beta.py:37", "_project_flavor_symmetry@wilson/run/smeft/rge.py:12", "smeft_evolve_leadinglog@wilson/run/smeft/rge.py:33"])
prop("P19", "SMEFT beta functions: linear in the coefficients, pure, Standard Model limit",
     """At fixed Standard Model parameters the beta functions of the dimension-six coefficients are linear in the coefficients; without coefficients none is
     generated and the Standard Model parameters run with the known one-loop equations. Evaluating the beta functions does not change their input, and the result depends
     only on the current arguments, not on earlier evaluations.""",
     "inputs histories", "all parameter and coefficient values; histories of evaluations", "Tests evaluate at one point and cannot see cached or aliased state.",
     "wilson/run/smeft/beta.py", ["beta@wilson/run/smeft/beta.py:37", "my_einsum cache@wilson/run/smeft/beta.py:27"],
     ["einsum cache|memo of tensor contractions|wilson/run/smeft/beta.py:32"],
     note="Linearity and the SM limit are proved; history independence is bounded (sequences of evaluations with changed and mutated inputs).")
prop("P20", "SMEFT anomalous dimensions equal the pinned published equations",
     """Each beta function of the SMEFT equals, term by term and for all parameter values, the renormalisation group equation recorded for it from the
     published one-loop anomalous dimensions implemented at the pinned revision.""",
     "inputs", "all values of gauge, Yukawa, Higgs parameters and coefficients", "The tests compare one tabulated point per coefficient with loose tolerance.",
     "wilson/run/smeft/beta.py", ["beta@wilson/run/smeft/beta.py:37"],
     note="The oracle is the term table recorded from the pinned revision (vc/data), itself checked against the repository's reference tables from DsixTools; a regression contract.")
prop("P21", "SMEFT evolution solves the beta-function equations between the given scales",
     """Running from one scale to another adds beta times ln(scale_out/scale_in)/(16 pi^2) in the leading-log approximation, and otherwise hands the
     integrator the initial value problem with exactly this derivative, the start value at the initial scale and the end at the target scale, returning the result
     at the target scale; the continuous solution evaluates the same problem at each requested scale.""",
     "inputs", "all scales, initial values and accuracy settings", "Tests run between a few fixed scales.",
     "wilson/run/smeft/rge.py wilson/run/smeft/classes.py", ["smeft_evolve, smeft_evolve_leadinglog@wilson/run/smeft/rge.py:33", "SMEFT.run, _rgevolve@wilson/run/smeft/classes.py:91"],
     note="The ODE integrator is an assumed contract: its numerical accuracy is not claimed.")
prop("P22", "Results of SMEFT running are returned in the default Warsaw flavour basis",
     """After running, parameters and coefficients are rotated to the default basis, in which down-type quark and charged-lepton
     mass matrices are diagonal with non-negative entries, by one common unitary field redefinition, and the result contains exactly the nonzero
     independent coefficients of the basis at the output scale.""",
     "inputs", "all running results", "Tests look at single coefficients of single runs.",
     "wilson/run/smeft/classes.py", ["SMEFT._rotate_defaultbasis@wilson/run/smeft/classes.py:122", "SMEFT._to_wcxf@wilson/run/smeft/classes.py:79"],
     note="The singular value decomposition is an assumed contract.")
prop("P23", "Extracted SMEFT parameters reproduce the measured Standard Model inputs",
     """The Standard Model parameters determined in the presence of dimension-six coefficients give back exactly the input boson and fermion masses, mixing matrix, Fermi
     constant and couplings when the physical quantities are computed from them, in either Warsaw flavour basis; the physical quantities follow the published first-order relations; potentials without a physical vacuum or coefficients for which no hypercharge coupling exists are rejected.""",
     "inputs", "all physical input values and coefficient values in the perturbative domain", "Tests check one parameter point with zero or single coefficients.",
     "wilson/run/smeft/smpar.py", ["smeftpar, smpar@wilson/run/smeft/smpar.py:100", "m2Lambda_to_vMh2, vMh2_to_m2Lambda, get_gpbar@wilson/run/smeft/smpar.py:38"],
     note="The scalar root finder and the diagonalisation are assumed contracts.")
prop("P24", "WET running evolves every coefficient of every sector exactly once",
     """Running in WET, WET-4 and WET-3 multiplies each sector's coefficients, suitably normalised with the running couplings and masses, by the evolution matrix of that sector's
     class; it mixes no sectors, drops or duplicates no coefficient, honours sector restrictions and neglected orders, uses parameters evaluated at both scales, and the identity
     results for equal scales.""",
     "inputs", "all coefficient values, parameters, scales, sectors and numbers of flavours", "Tests compare a few coefficients of a few runs.",
     "wilson/run/wet/rge.py wilson/run/wet/classes.py", ["run_sector, scale_C, get_permissible_wcs@wilson/run/wet/rge.py:119", "WETrunner.run, _run_dict, _run_wcxf, run_continuous@wilson/run/wet/classes.py:56"],
     note="The QCD running of couplings and masses inside one run is an uninterpreted callee; the evolution matrices are P25.")
prop("P25", "WET evolution matrices solve the one-loop renormalisation group equations",
     """The QCD evolution matrix is the matrix exponential of the anomalous dimension, the QED matrix its first-order variation, including degenerate and resonant eigenvalues;
     both compose along scales, and are identity and zero between equal scales; with QCD neglected the QED evolution remains.""",
     "inputs", "all anomalous dimensions, coupling ratios and masses", "Tests compare stored numbers for some sectors.",
     "wilson/run/wet/rge.py", ["getUs, getUe, admeig@wilson/run/wet/rge.py:37"],
     note="Discharged symbolically for matrices of any dimension and all relative positions of the eigenvalues (two arbitrary indices stand for all); in addition explicitly for 2- and 3-dimensional matrices and sampled against a matrix exponential for the actual classes (bounded).")
prop("P26", "WET anomalous dimensions obey parity, flavour relabelling, published equations",
     """The anomalous dimension matrices of every WET class, as functions of the quark and lepton masses and the number of flavours, agree with the pinned published one-loop
     equations, are related by parity for chirality-flipped operators, and are covariant under relabelling of equally charged fermions.""",
     "inputs", "all masses, all classes and numbers of flavours", "Tests only see sums of entries through single runs.",
     "wilson/run/wet/adm.py", ["adm_s_*, adm_e_*@wilson/run/wet/adm.py:1"],
     note="The pinned table was extracted from the tree under study; parity and relabelling are independent of it.")
prop("P27", "SMEFT-to-WET matching rotates, combines and selects coefficients correctly",
     """Matching returns only coefficients of the target basis: the tree-level plus, exactly when requested, one-loop result for the symmetrised input, with left-handed
     down quarks rotated to the mass basis by the CKM matrix of the given parameters and symmetry factors restored; matchers between other bases compose it with the translators.""",
     "inputs", "all coefficient values, parameters, scales and pairs of bases", "Tests compare a few matched coefficients.",
     "wilson/match/smeft.py wilson/match/__init__.py wilson/util/wet_jms.py", ["match_all@wilson/match/smeft.py:16", "rotate_down, unscale_dict_wet@wilson/util/wet_jms.py:149", "warsaw_to_jms, warsaw_to_flavio, warsaw_to_bern, warsaw_to_eos@wilson/match/__init__.py:10"],
     note="Tree-level and one-loop conditions are callees with their own contracts (P28, P29).")
prop("P28", "Tree-level matching follows from contact terms and W and Z exchange",
     """To first order in the dimension-six coefficients, every tree-level WET coefficient equals the contact interaction minus the W and Z exchange with the modified couplings in the
     (m_W, G_F, alpha) scheme, with the Standard Model contribution subtracted, so that vanishing coefficients match onto zero.""",
     "inputs", "all coefficient values and physical values of the input parameters", "Tests compare with one older implementation at one random point.",
     "wilson/match/smeft_tree.py", ["match_all_array, _match_all_array@wilson/match/smeft_tree.py:11"],
     note="First order in the coefficients.")
prop("P29", "One-loop matching is linear, flavour-symmetric and equal to the published result",
     """The one-loop contribution is linear in the dimension-six coefficients at first order, vanishes with them, has the permutation and hermiticity symmetries of the WET operators,
     respects the flavour symmetries left unbroken by the fermion masses, and agrees with the pinned published matching conditions.""",
     "inputs", "all coefficient values, parameters and matching scales", "Tests compare about one hundred single entries at one parameter point.",
     "wilson/match/smeft_loop.py", ["match_all_array, _match_all_array@wilson/match/smeft_loop.py:15"],
     note="First order in the coefficients. The pinned terms were extracted from the tree under study, the linearity, flavour and symmetry clauses are independent of them. Three sampled parameter points are an additional bounded check.")
prop("P30", "Crossing a quark threshold keeps exactly the light-quark coefficients",
     """Matching WET to WET-4, WET-4 to WET-3 and WET-3 to WET-2 in the same basis returns exactly the coefficients that exist in the lower theory, unchanged, and drops only
     those; in the JMS basis these are the operators without heavy quarks.""",
     "inputs", "all coefficient values", "Tests run single coefficients.",
     "wilson/match/__init__.py", ["wet_wet4_jms, wet4_wet3_jms, wet3_wet2_jms, wet_wet4_flavio, wet4_wet3_flavio, wet_wet4_bern, wet4_wet3_bern@wilson/match/__init__.py:49"])
prop("P31", "Warsaw, up-aligned and mass-aligned bases differ by the CKM rotation only",
     """Translating SMEFT coefficients between the Warsaw and up-aligned Warsaw basis rotates exactly the left-handed quark doublets by the CKM matrix of the given parameters and is
     undone by the opposite translation; the Warsaw mass basis rotates the up-type dipole and Yukawa coefficients and diagonalises the Weinberg operator, leaving the rest unchanged.""",
     "inputs", "all coefficient values, unitary mixing matrices and parameters", "Tests compare a few random points round trip.",
     "wilson/translate/smeft.py wilson/translate/__init__.py", ["warsaw_to_warsaw_up, warsaw_up_to_warsaw, warsaw_to_warsawmass@wilson/translate/smeft.py:1", "flavor_rotation@wilson/util/smeft_warsaw.py:1"],
     note="The CKM matrix is an arbitrary unitary matrix; ckmutil is external.")
prop("P32", "Higgs-basis couplings follow their definition and are inverted exactly",
     """Translating from the up-aligned Warsaw basis to the Higgs-Warsaw basis gives the effective couplings of the published definition for the given input parameters, keeps the other coefficients,
     and the opposite translation returns the Warsaw coefficients that reproduce these couplings; translations involving the Warsaw basis go through the up-aligned one.""",
     "inputs", "all coefficient values, unitary mixing matrices and physical values of the parameters", "Tests do one random round trip.",
     "wilson/translate/smeft_higgs.py wilson/translate/__init__.py", ["warsaw_up_to_higgslike, higgslike_to_warsaw_up@wilson/translate/smeft_higgs.py:1"])
prop("P33", "Translations between WET bases invert each other and compose consistently",
     """For every theory with five, four or three flavours, going from flavio, Bern or FlavorKit to JMS and back, between flavio and Bern and back, or from JMS and back returns every coefficient
     that both bases have, and a translation through a third basis equals the direct translation on all coefficients the third basis can represent.""",
     "inputs", "all coefficient values, CKM matrices, masses and couplings", "Tests compare single random points for two of the bases.",
     "wilson/translate/wet.py wilson/data", ["flavio_to_JMS, JMS_to_flavio, Bern_to_JMS, JMS_to_Bern, Bern_to_flavio, flavio_to_Bern@wilson/translate/wet.py:1768", "FlavorKit_to_JMS, JMS_to_FlavorKit@wilson/translate/wet.py:2220"],
     note="Which coefficients two bases share is pinned in vc/data.")
prop("P34", "Translations between WET bases preserve the effective Lagrangian",
     """For every coefficient of the source basis that the target basis can represent, the translated coefficients multiply operators that give the same four-fermion, dipole and gluonic interactions,
     by Fierz and colour identities and the normalisation of each basis: JMS to and from flavio and Bern, flavio to Bern, JMS to EOS and FormFlavor; FlavorKit by its table of names.""",
     "inputs", "all coefficient values, CKM matrices, masses and couplings", "Tests check round trips, which cannot see an error made both ways.",
     "wilson/translate/wet.py wilson/data", ["_JMS_to_Fierz_III_IV_V, _Fierz_to_Bern_III_IV_V, _Fierz_to_Flavio_V, Fierz_to_Flavio_lep, _Fierz_to_EOS_V, JMS_to_FormFlavor_lep@wilson/translate/wet.py:294"],
     note="FormFlavor scalar and tensor Delta F=2 conventions and the FlavorKit names are recorded from the code; everything else is compared with operator definitions.")
prop("P35", "WET translations use only the given parameters, coefficients and sectors",
     """Every translation evaluates masses and couplings at the scale of the coefficients from the given parameters with defaults for the rest, treats missing coefficients as zero, leaves
     its argument unchanged, and restricted to some sectors returns for their coefficients the same values as the full translation.""",
     "inputs", "all coefficient values and parameters, all sectors, all registered WET translations", "Tests use default parameters and complete inputs.",
     "wilson/translate/wet.py wilson/translate/__init__.py", ["get_parameters@wilson/translate/wet.py:1700", "JMS_to_flavio, flavio_to_JMS@wilson/translate/wet.py:1768"])
prop("P36", "Repeated and reordered match_run calls give what a fresh instance gives",
     """For every Wilson instance and every history of match_run calls and option changes on it, a call returns the coefficients that the same call on a fresh instance with the current
     options returns: cached intermediate results never change an answer, changing an option discards them, and no call changes the input coefficients.""",
     "histories", "all histories of calls and option changes, all scales, EFTs, bases and sector selections", "Tests make one call per instance; a cache goes wrong only after particular sequences of calls.",
     "wilson/classes.py", ["Wilson.match_run@wilson/classes.py:170", "_get_from_cache, _set_cache, clear_cache@wilson/classes.py:255"],
     ["intermediate results|coefficients per EFT, scale, basis and sectors|Wilson._cache"], ["Wilson.match_run"],
     note="Induction over the history: one call on an arbitrary cache satisfying the invariant. Option changes and pairs of calls are enumerated in addition (bounded). Translators, matchers, SMEFT.run and WETrunner.run are uninterpreted.")
prop("P37", "match_run passes through the right EFTs at the right scales, for every input",
     """From every supported EFT and basis, at every scale, match_run translates, runs, matches SMEFT to WET at the electroweak matching scale, WET to WET-4 at the b scale and WET-4 to
     WET-3 at the c scale in this order, exactly once each and only as far as needed, returns the requested EFT, basis and scale, and raises an error where no way leads down to the target.""",
     "inputs", "all scales (including coinciding ones), all EFT and basis combinations", "Tests sample few scales; coinciding scales and starting points inside the chain take separate branches.",
     "wilson/classes.py", ["Wilson.match_run@wilson/classes.py:170"])
prop("P38", "Configuration options and parameters reach every step of match_run",
     """The user's parameters (over the defaults) are used by every translation, matching and WET running step, the QCD and QED orders by every WET running step, the SMEFT accuracy by every
     SMEFT running step, the loop order by the SMEFT matching, and the three matching scales where they apply.""",
     "inputs", "all option values, all EFT and basis combinations, all scales", "Tests never compare runs with different parameters on every route through the EFTs.",
     "wilson/classes.py", ["Wilson.match_run, _wetrun_opt@wilson/classes.py:160", "Wilson.parameters, matching_parameters@wilson/classes.py:138"],
     note="SMEFT running takes no parameters in this code base; the option cannot reach it.")
prop("P39", "Restricting match_run to sectors returns exactly those sectors, unchanged",
     """match_run with a selection of WET sectors returns exactly the coefficients of these sectors with the values the unrestricted call gives them, whichever steps
     (none, translation, running, matching) the call needs and whether or not translators restrict their own output; no translation mixes coefficients of different sectors.""",
     "inputs", "all scales, EFTs and bases", "Tests use the selection in one constellation.",
     "wilson/classes.py", ["Wilson.match_run@wilson/classes.py:170"],
     note="In match_run two sectors common to all bases stand for all; that translations keep all sectors apart is proved for every pair of bases, the same for running is P24.")
prop("P40", "Options are validated, isolated between instances and reflected in the hash",
     """Setting an option changes that option of that instance only; setting a default changes future instances only; invalid names and values are refused without effect; arguments are never
     modified or shared; user parameters override the built-in ones without changing them; the hash changes exactly with options and coefficients.""",
     "histories", "all sequences of option changes on any number of instances", "Tests look at one option of one instance.",
     "wilson/classes.py", ["ConfigurableClass.set_option, set_default_option, get_option@wilson/classes.py:43", "Wilson.__hash__@wilson/classes.py:121"],
     ["options|per instance|_options", "defaults|per class|_default_options"], ["get_option", "hash"],
     note="One change in an arbitrary state of the other options (opaque values), for every number; accepted and refused values, the hash and values of other types are representatives (bounded).")
prop("P41", "Running QCD parameters follow one consistent chain of flavour thresholds",
     """The strong coupling and the b, c and s masses at any scale with any number of flavours are obtained from their defining value (alpha_s(M_Z), m_b(m_b), m_c(m_c), m_s(2 GeV)) by running in
     each theory up to the threshold and decoupling there, with the same thresholds for all, with the coupling belonging to the scale and flavour number of each step, at the requested loop order; nonsensical
     scales and flavour numbers are refused.""",
     "inputs", "all scales, starting values, numbers of flavours and loop orders", "Tests compare a handful of numbers.",
     "wilson/util/qcd.py", ["alpha_s, m_b, m_c, m_s@wilson/util/qcd.py:20"], (), ["alpha_s", "m_b", "m_c", "m_s"],
     note="RunDec is replaced by its contract (assumed). Independence of the call history with the real library is sampled.")
prop("P42", "Continuous solutions agree with running to each scale, for every coefficient",
     """The continuous solution of the SMEFT and WET evolution gives at every scale in its range the coefficients that running to this scale gives, including those that vanish at some scale and the SM
     parameters, and plot data consist of the requested number of linearly or logarithmically spaced scales covering the range with the real or imaginary part of the solution there.""",
     "inputs", "all solutions, coefficients, ranges and numbers of points", "Tests look at the shape of one array.",
     "wilson/classes.py wilson/run/smeft/rge.py wilson/run/wet/classes.py wilson/run/smeft/classes.py",
     ["RGsolution.plotdata@wilson/classes.py:300", "smeft_evolve_continuous@wilson/run/smeft/rge.py:66", "run_continuous@wilson/run/wet/classes.py:111"], (), ["RGsolution.fun", "RGsolution.plotdata"], 
     note="Agreement with running is proved for every scale over the evolution as a free function; the real ODE solver is run on concrete inputs (bounded).")
prop("P43", "SMEFT runs start from Standard Model parameters fitted at the weak scale",
     """The SM parameters a SMEFT run starts from are those obtained by imposing the measured values at the electroweak scale in the presence of the Wilson coefficients there (leading-log running of the
     coefficients down, with a first estimate that holds them constant), running them up with the coefficients held fixed and rotating to the Warsaw basis; the coefficients given by the user are taken over
     unchanged and all others are zero, and the reported parameters come from running everything back down.""",
     "inputs", "all coefficient values and input scales", "Tests look at one parameter point.",
     "wilson/run/smeft/classes.py", ["SMEFT._set_initial_wcxf, _get_sm_scale_in, _run_sm_scale_in, get_smpar@wilson/run/smeft/classes.py:42"],
     ["initial condition|C_in, scale_in|SMEFT.C_in"], ["SMEFT.C_in", "get_smpar()"],
     note="Evolution, extraction and rotation are uninterpreted callees (P21, P23, P22). The numerical closure (running back reproduces the inputs) is bounded.")
NA = []
HOW = {
"P01": "Contract on `WC._to_number`, `dict2values`, `dict`, `__getitem__`, `df`, executed on symbolic complex values with the branch on the imaginary part forked; files of any size through one arbitrary name (pandas.DataFrame by contract).",
"P02": "`dump`/`load` executed with the json/yaml codecs replaced by round-trip contract stubs, symbolic values and scale, and with opaque contents (files, EFTs and bases of any size).",
"P03": "Inheritance at one arbitrary sector of maps of any size (proof, any depth by induction); validation by enumeration of EFT/parent/sector/name constellations against the set-theoretic contract (bounded).",
"P04": "Registered functions are uninterpreted symbols; the contract fixes which symbol is applied to which arguments and that the result is returned unchanged.",
"P05": "One operation is executed on an arbitrary registry (opaque other entries, arbitrary shared keys): invariant preserved by every operation, hence by every history.",
"P06": "Contract on `get_eos_np` and `wcxf2eos` with symbolic coefficients; the comparison of electron and muon values is forked.",
"P07": "Commands executed on a document whose codecs are round-trip contract stubs, registered functions uninterpreted.",
"P08": "Symbolic symmetric arrays for all operator classes through both directions of the converter; pylha replaced by a round-trip contract.",
"P09": "The card is filled with symbolic coefficients and cutoff; `abs` and `angle` are atoms; parameter names are parsed by an independent table (`SIM0/2/4`), alternative index orders resolved by the orbit spec.",
"P10": "Every array entry is a fresh symbol: vectors, pads and names are compared entry by entry as symbols.",
"P11": "Every independent entry is a fresh complex symbol; the result is compared with the orbit of the index symmetry group given as spec. Arrays of every shape (zero, real, single entries, subsets): bounded.",
"P12": "Symbolic values for every non-redundant coefficient; Lagrangian sums compared as polynomials; round trips both ways. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded). Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P13": "For every sector, symbols for all basis coefficients; each array entry compared to the orbit formula of the spec. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded). Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P14": "Each redundant name with a symbolic value, compared with the orbit partner.",
"P15": "Symbolic rotation matrix and symbolic coefficients; each operator's result compared with the einsum of its field content.",
"P16": "Opaque unitary matrices (rewrite rules U U^+=1) and symbolic arrays; per-operator field content in `smeft_spec.py`. The same matrix object passed for any subset of the fields is covered as well. Special rotations (identity, permutations, phases, one field) and arrays: bounded.",
"P17": "Abstract tensor engine: the beta function is executed on tensors whose slots carry a field type; each contraction must pair conjugate slots of the same type and each output index must have the type of the operator (valid for any number of generations). Unfaithful code paths fall back to numerics.",
"P18": "Polynomial engine on arrays with the symmetries imposed; equality of related entries of the output.",
"P19": "Homogeneity of degree one read off the exact polynomial in a scaling symbol plus additivity; SM part compared to the closed SM equations; histories bounded.",
"P20": "Exact comparison of canonical term lists of the tensor expressions with `vc/data/beta_spec*`. Special values of the parameters and shapes of the arrays: against extrapolation from generic points (bounded).",
"P21": "`solve_ivp` is a contract stub that receives the derivative function; the derivative, start value, interval and interpretation of the result are compared symbolically. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded).",
"P22": "msvd replaced by its contract (opaque unitary matrices, diagonal non-negative reals).",
"P23": "Symbolic physical inputs with positivity; square roots as atoms; root finder stub returns a symbol constrained by its equation; z3 decides branches. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded).",
"P24": "`run_sector` and `WETrunner` executed on symbolic coefficients, masses and couplings with the evolution matrices as opaque generic sparse matrices; sector/class assignment pinned in the check. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded). Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P25": "`getUs`/`getUe`/`admeig` executed on generic diagonalisable symbolic matrices of dimension 2 and 3 (eigenvector matrix L*U, eigenvalue gaps below/at/above the resonance forked); actual classes against `expm` of a block matrix. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded). Vanishing, equal or integer masses and extreme ratios of couplings for every class: bounded.",
"P26": "Each matrix is executed with symbolic masses; entries compared as polynomials in masses with `vc/data/adm_spec.json.gz`; parity and relabelling map names and masses and compare entries of the same matrix.",
"P27": "`rotate_down` by the tensor engine (CKM matrix opaque); `match_all` on symbolic coefficients with the tree-level, one-loop and rotation callees as contract stubs returning opaque arrays; matchers on uninterpreted callees. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded). Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P28": "`smeft_tree.match_all_array` executed on one symbol per independent coefficient and symbolic (v, m_W, m_Z); coefficients are nilpotent of second order; compared as Laurent polynomials with gauge-boson exchange written from the operator definitions.",
"P29": "The tensor engine runs `smeft_loop.match_all_array` with abstract flavour indices, coefficients to first order, symbolic m_W, G_F, alpha_e, alpha_s, fermion masses, scale and an arbitrary unitary CKM matrix (the projector on the top quark becomes a product of unit vectors). The 1275 canonical terms and their coefficient functions are compared with `vc/data/loop_terms.json.gz` (`tools/gen_loop_terms.py`); linearity, flavour charges and operator symmetries are derived from the terms. Bounded in addition: three sampled parameter points with one symbol per independent coefficient against `vc/data/loop_spec.json.gz`.",
"P30": "Every registered threshold matcher executed on one symbol per coefficient of the upper basis. Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P31": "Symbolic coefficients and an opaque CKM matrix compared with the rotation of the field content; the round trip by the tensor engine with the rule V V^+ = 1. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded). Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P32": "Both directions executed on symbolic coefficients and parameters (square roots are atoms) and compared with couplings written from the definition; the inverse is checked by applying that definition to its result.",
"P33": "Both translations are executed one after the other on one symbol per coefficient, with a symbolic CKM matrix, masses and couplings; the results are compared as rational functions.",
"P34": "The translation is executed symbolically; source and target coefficients are multiplied with the tree-level vertices of the operators (explicit Dirac and colour matrices, antisymmetrised, `vc/lagr.py`) and the two sums compared component by component as polynomials in the coefficients.",
"P35": "`get_parameters` replaced by its contract and checked separately on uninterpreted running functions; partial inputs and all sector selections executed symbolically. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded). Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P36": "Coefficients carry the chain of (uninterpreted) steps that made them; `match_run` is executed with symbolic scales (z3 decides which coincide) on a lazily materialised arbitrary cache that satisfies `entry = result of a fresh call`, and the result and every entry of the new cache are compared with the contract. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded).",
"P37": "`match_run` executed with symbolic scales, coinciding or not (forked, z3), callees uninterpreted; the chain of steps is compared with the one the contract constructs. Dictionaries of every shape (single, zero, equal, integer coefficients, any order): bounded, by linearity.",
"P38": "As P37, with the options handed to each step being part of the step.",
"P39": "As P37, with coefficients of two sectors, under translators that restrict themselves and translators that do not.",
"P40": "One operation on instances and defaults filled with opaque values, the new value a symbol (the real option schema with `Coerce(float)` replaced by its contract); frame condition on everything else; validation and hash by enumeration. Built-in parameters: every translation, matching and running step called alternately with and without own parameters, against a fresh process (bounded).",
"P41": "The real functions run on symbolic scales and masses (equality with the defining scale forked) with a ghost state behind every RunDec call: preconditions at each call site, chain of steps as postcondition. Independence of earlier calls: sampled histories against the same call in a fresh process (bounded).",
"P42": "`plotdata` on an unknown solution; `run_continuous(mu_out).fun(mu)` against `run(mu)` for symbolic scales and coefficients, over `run_sector` (WET) resp. the ODE solver (SMEFT) as free functions; the real solver on concrete inputs (bounded).",
"P43": "The constructor and `get_smpar` executed on symbolic coefficients with evolution, extraction and rotation as free functions returning fresh unknowns; the origin of every number of the initial condition is traced back through the calls.",
}
