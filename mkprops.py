#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json
P=[]
def p(id,title,statement,text,why,files,mech,observe,over=('inputs',),state=None,hook=None):
    P.append(dict(id=id,title=title,statement=' '.join(statement.split()),
      quantifier=dict(over=list(over),text=' '.join(text.split())),why_tests_cant=' '.join(why.split()),
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
F='segeval/format.py'; W='segeval/window/__init__.py'; MB='segeval/similarity/distance/multipleboundary.py'
SI='segeval/similarity/__init__.py'; ML='segeval/ml/__init__.py'; AG='segeval/agreement/__init__.py'; D='segeval/data/__init__.py'
p('C01','Segmentation formats convert exactly and invertibly',
"""For every sequence of positive segment masses, the position labels are 1..n with label i repeated mass i times, converting them back to masses
returns the original masses, and the boundary string has one slot fewer than there are units, with boundary type 1 exactly in the slot after each
non-final segment and nothing else. Converting any sequence of labels to masses yields the lengths of its maximal runs of equal adjacent labels, in order.
Converting an NLTK string yields, in order, one mass per stretch between boundary symbols, each one more than the stretch's length.""",
"all finite mass sequences with masses >= 1 of any length and size, all label sequences, all NLTK strings and single-character boundary symbols",
"Tests convert about ten short literals of at most 13 units; the claim is about every length, every mass and every run structure.",
[F],[('convert_masses_to_positions',F),('convert_positions_to_masses',F),('boundary_string_from_masses',F),('convert_nltk_to_masses',F)],
['return values of the four conversion functions'])
p('C02','Pk equals the fraction of disagreeing windows',
"""For two segmentations of the same text and a window size k, Pk is the number of positions i such that i and i+k both lie in the text and exactly one of the two
segmentations places units i and i+k in the same segment, divided by the number of such positions, and 0 when the text is too short for any window.
The value always lies in [0,1] and is 0 for identical segmentations; one_minus returns 1 minus it, and return_parts returns the count of disagreements and the count of windows.""",
"all pairs of equal-length segmentations (mass, position and NLTK formats), all window sizes >= 1 and the default one",
"Tests check a few dozen concrete pairs and the summary of two datasets; an error that needs a particular alignment, an even/odd window, or a text shorter than the window is not reached.",
['segeval/window/pk.py',F],[('sliding probe loop','segeval/window/pk.py __pk__'),('window size default',W)],['pk() return value'])
p('C03','WindowDiff equals the fraction of windows with differing boundary counts',
"""For two segmentations of the same text and a window size k, WindowDiff is the number of windows of k+1 consecutive units in which the two segmentations have different numbers of
boundaries, divided by the number of such windows, and 0 when there are none. With the Lamprier et al. correction both texts are first padded by k phantom units at each end
(a boundary separates padding and text) and the divisor is one more than the number of windows. The value always lies in [0,1] and is 0 for identical segmentations; one_minus returns 1 minus it,
and return_parts returns numerator and divisor.""".replace('. With the','; with the',1),
"all pairs of equal-length segmentations (mass, position and NLTK formats), all window sizes >= 1 and the default one, with and without the correction",
"Tests check concrete pairs; boundary counts are compared for a handful of windows only, and the padded variant on three inputs.",
['segeval/window/windowdiff.py',F],[('__create_paired_window__','segeval/window/windowdiff.py'),('__window_diff__ loops','segeval/window/windowdiff.py')],['window_diff() return value'])
p('C04','Default window size is half the mean reference segment',
"""When no window size is given, Pk and WindowDiff use, and compute_window_size returns, half of the mean mass of all segments of the reference (of every segmentation of every item, for a collection),
rounded by the supplied rounding function (by default to the nearest integer, ties to even), and 2 whenever that is below 2. The hypothesis never influences it, and an explicitly given window size is used unchanged.""",
"all references: mass sequences, position sequences, item/coder collections of any shape; all rounding functions",
"Tests assert four values; ties, long mean masses, nested collections and the independence from the hypothesis are not sampled.",
[W,'segeval/util/math.py'],[('__compute_window_size__',W),('mean','segeval/util/math.py')],['compute_window_size()','pk()','window_diff()'])
p('C05','Edits account for every boundary disagreement exactly once',
"""For any two boundary strings of equal length, every (position, boundary type) present in exactly one of them is accounted for by exactly one edit: an addition labelled with the side ('a' or 'b') that has it,
one end of a substitution pairing a type only in the first string with a type only in the second at the same position, or one end of a transposition; and edits account for nothing else.
Consequently additions + 2*substitutions + 2*transpositions equals the number of disagreements, and there are no edits exactly when the strings are equal.""",
"all pairs of equal-length sequences of finite sets of integer boundary types, all maximum transposition spans n_t >= 1",
"Tests compare about ten hand-written strings of length 10 with spans 2 and 3; conservation must hold for every combination of overlapping candidate edits.",
[MB],[('__optional_set_edits__',MB),('__transpositions__ discards',MB),('__additions_substitutions_sets__',MB)],['boundary_edit_distance()'],
state=[dict(name='options_set',meaning='per position: symmetric difference, a-b, b-a minus what transpositions took',where=MB),dict(name='options_transp',meaning='transpositions covering a position',where=MB)])
p('C06','Near misses become transpositions by a fixed greedy rule',
"""Each transposition (i, j, type) has i < j with j - i < n_t, and the type is present only in the first string at one of i, j and only in the second string at the other.
Candidates are taken in order of increasing span and then of increasing start position, and a candidate is taken unless one of its two boundaries already belongs to a taken transposition
or, at that moment, each of the two positions still holds an unexplained boundary of each string (so that taking it would dismantle two substitutions).""",
"all pairs of equal-length boundary strings over finite sets of integer types, all n_t >= 1",
"Tests contain seven transposition examples, n_t of 2 or 3 only; order, overlap and span limits interact over arbitrarily long clusters of boundaries.",
[MB],[('__transpositions__',MB),('__overlaps_existing__',MB),('__has_substitutions__',MB)],['third component of boundary_edit_distance()'])
p('C07','Substitutions pair as many types as possible at least total distance',
"""At each position, after transpositions are removed, the boundary types left only in the first string and left only in the second are paired one-to-one into as many substitutions as the smaller of the two sides
allows, and the remaining types of the larger side become additions. Among all such pairings the total absolute difference between paired types is minimal.""",
"all finite sets of integer types at a position",
"Tests exercise one 3-against-1 case and a few 1-against-1 cases; minimality is a statement over all pairings.",
[MB],[('__additions_substitutions_sets__',MB)],['first two components of boundary_edit_distance()'])
p('C08','Boundary similarity is one minus normalised weighted edits',
"""Boundary similarity is 1 - (weighted count of edits) / (number of additions, substitutions, transpositions and matching boundaries), and 1 if neither segmentation has a boundary.
With the default weights it always lies in [0,1] and equals 1 exactly when the segmentations are identical; one_minus returns 1 minus it and return_parts returns numerator, denominator and the three edit lists.""",
"all pairs of equal-length segmentations in every format, all n_t >= 1, every choice of the provided weighting functions",
"Tests check about ten values for the default n_t=2; range and identity of indiscernibles quantify over all pairs.",
['segeval/similarity/boundary.py',SI,'segeval/similarity/weight.py',MB],[('__boundary_similarity__','segeval/similarity/boundary.py'),('weights','segeval/similarity/weight.py')],['boundary_similarity()'])
p('C09','Segmentation similarity is one minus edits per potential boundary',
"""Segmentation similarity is 1 - (weighted count of edits) / (number of potential boundary positions times the number of boundary types used), and 1 if no boundary type is used.
With the default weights it always lies in [0,1] and equals 1 exactly when the segmentations are identical; one_minus returns 1 minus it and return_parts returns numerator and denominator.""",
"all pairs of equal-length segmentations in every format, all n_t >= 1, every choice of the provided weighting functions",
"Tests check single-type examples only; several types and larger spans are never compared against the definition.",
['segeval/similarity/segmentation.py',SI,'segeval/similarity/weight.py'],[('__segmentation_similarity__','segeval/similarity/segmentation.py')],['segmentation_similarity()'])
p('C10','Boundary statistics are mutually consistent',
"""In the statistics of a pair of segmentations, matches lists each (position, type) present in both, full_misses each present in exactly one, boundaries_all = 2*len(matches) + len(full_misses),
len(full_misses) = len(additions) + 2*len(substitutions) + 2*len(transpositions), boundary_types is the set of types used by either, and pbs is the number of slots times the number of those types.
count_edits is the sum of the three weighting functions applied to the three edit lists, where scaled weights are |start-end|/n_t summed over transpositions and |a-b|/(max type - min type + 1) summed over substitutions,
and unscaled weights and the addition weight count edits.""",
"all pairs of equal-length segmentations in every format, all n_t >= 1, all combinations of provided weighting functions",
"One test compares one statistics dictionary; the identities between its fields are never checked over other inputs.",
[SI,'segeval/similarity/weight.py','segeval/similarity/distance/__init__.py'],[('__boundary_statistics__',SI),('weight functions','segeval/similarity/weight.py'),('identify_types','segeval/similarity/distance/__init__.py')],['boundary_statistics()'])
p('C11','The BED confusion matrix counts every match and edit once',
"""In the confusion matrix of a pair of segmentations, each cell [x][y] with x and y different boundary types counts the substitutions of x in the first for y in the second, and each diagonal cell [x][x] counts the matches of type x plus
the weight of each transposition of type x. The cells pairing type x with None count the additions of x, one orientation for each side, and all other cells are 0.""",
"all pairs of equal-length segmentations in every format, all n_t >= 1, both transposition weights",
"One test reads eight cells of one matrix; that nothing is dropped or double counted concerns every input.",
[SI],[('__boundary_confusion_matrix__',SI)],['boundary_confusion_matrix()'])
p('C12','Edit-based measures do not depend on argument order',
"""Swapping the two segmentations leaves boundary similarity, segmentation similarity, the numbers of matches, substitutions and transpositions, and the weighted edit count unchanged,
and exchanges the sides of the additions. The set of transpositions found is identical in both orders.""",
"all pairs of equal-length boundary strings, all n_t >= 1, every choice of provided weighting functions",
"No test compares both orders; symmetry is a relational claim over every input pair.",
[MB,SI],[('symmetric set operations and tie-breaking',MB)],['boundary_similarity()','segmentation_similarity()','boundary_statistics()','boundary_edit_distance()'])
p('C13','Precision, recall and F-measure follow their definitions',
"""For a confusion matrix of non-negative counts, the precision of a class is its diagonal cell over its row total, recall its diagonal cell over its column total, and F-beta (1+beta^2)PR/(beta^2 P+R), each 0 when its diagonal cell is 0, so all lie in [0,1].
Micro averaging divides summed numerators by summed denominators over all classes and macro averaging is the mean over all classes; a dictionary of matrices yields the dictionary of their values.""",
"all finite matrices of non-negative counts, all beta > 0, all classes",
"Tests use two-class integer matrices with beta 1 only.",
[ML],[('__precision__/__recall__/__fmeasure__',ML),('__value_micro_macro__',ML)],['precision()','recall()','fmeasure()'])
p('C14','A confusion matrix reads 0 by default and knows all its classes',
"""Whatever the sequence of reads, assignments and increments of cells, each cell reads as the last value given to it or 0, assigning whole rows is rejected, and distinct matrices never share cells or classes.
The class set, whenever asked for, contains exactly the row and column labels of the cells accessed so far, including accesses made after it was last asked for.""",
"all finite interleavings of cell reads, writes, increments and class queries on any number of matrices",
"Tests query the class set once per matrix, after all writes; staleness needs a query, another write and a second query.",
[ML],[('dirty flag','segeval/ml/__init__.py _InnerConfusionMatrix.__setitem__'),('classes cache','segeval/ml/__init__.py ConfusionMatrix.classes')],['ConfusionMatrix'],over=('histories',),
state=[dict(name='__dirty_classes__',meaning='class cache is stale',where=ML)])
p('C15','Dataset comparisons evaluate exactly the right coder pairs',
"""Comparing within one dataset yields, for each item, one value per unordered pair of that item's coders (both orders when permuted), and comparing two datasets yields, for each item present in both, one value per pair of a coder of the first and a coder of the second.
Each value equals the same metric called on those two segmentations with the same options and the dataset's format, and is stored under the key 'item,coder1,coder2' naming them in argument order.""",
"all datasets with any numbers of items and coders whose names contain no comma, all pairwise metrics and options",
"Tests compare summary statistics or four keys of two fixed datasets.",
['segeval/compute.py','segeval/util/__init__.py'],[('compute_pairwise_values','segeval/compute.py'),('__fnc_metric__','segeval/util/__init__.py')],['pk()/window_diff()/boundary_similarity()/... on datasets'])
p('C16','Observed agreement pools all coder pairs over all items',
"""Observed agreement is the sum of the comparison function's numerators over every unordered pair of coders and every item, divided by the sum of its denominators over the same pairs and items.
With boundary or segmentation similarity it lies in [0,1] and equals 1 exactly when all coders segment every item identically, and it does not depend on the order of items or coders.""",
"all datasets (two or more coders, the same for each item, at least one boundary overall), all formats, both comparison functions",
"Tests check six datasets' values.",
[AG],[('__actual_agreement_linear__',AG),('get_coders',D)],['actual_agreement_linear()'])
p('C17','Pi, Kappa and bias follow their chance-correction formulas',
"""Pi and Kappa equal (A - E)/(1 - E) with A the observed agreement; for Kappa E is the mean, over unordered coder pairs, of the product of the two coders' boundary rates, where a coder's rate is boundaries placed over potential boundaries totalled over that coder's comparisons,
and for Pi E is the square of the mean, over all comparisons and both their coders, of boundaries placed over potential boundaries (0 if there are none). Bias is Pi's E minus Kappa's E, and return_parts returns (A, E), or the two E for bias.
Items coded by different numbers of coders, and for Kappa items with fewer than two coders, are rejected.""".replace('(0 if there are none). Bias','(0 if there are none); bias'),
"all datasets with at least one boundary where E is not 1, all formats, both comparison functions",
"Tests check a few constants; weighting over unequal items and more than two coders is sampled on two datasets.",
['segeval/agreement/pi.py','segeval/agreement/kappa.py','segeval/agreement/bias.py',AG],[('__fleiss_pi_linear__','segeval/agreement/pi.py'),('__fleiss_kappa_linear__','segeval/agreement/kappa.py'),('__artstein_poesio_bias_linear__','segeval/agreement/bias.py')],
['fleiss_pi_linear()','fleiss_kappa_linear()','artstein_poesio_bias_linear()'])
p('C18','Merging datasets keeps every coding and never overwrites one',
"""Adding datasets yields exactly the union of their item/coder codings and of their coders, and raises a data error if both code the same item under the same coder name.
Plain addition and copying leave both operands unchanged, and later changes to the result never show in them; copying keeps codings, coders, properties, boundary types and format.""",
"all pairs of datasets and all later modifications of the result",
"Tests merge three tiny datasets.",
[D],[('Dataset.__iadd__/__add__/copy',D)],['Dataset'],over=('inputs','histories'))
p('C19','Datasets survive files unchanged',
"""Writing a dataset of masses as JSON and reading it back yields the same items, coders, codings (as tuples) and properties, and the read dataset lists its coders and can be used wherever the written one could.
Reading a TSV file yields one item named after the file with one coding per row; loading a folder tree yields exactly the codings of every file of the requested type in it, each item prefixed by the folder names leading to it.""",
"all datasets with string item and coder names, all TSV tables, all folder trees",
"Tests write one dataset and read three files; coder lists, several files per folder, nesting depth and blank lines are not sampled.",
['segeval/data/jsonutils.py','segeval/data/tsv.py',D],[('output/input_linear_mass_json','segeval/data/jsonutils.py'),('input_linear_mass_tsv','segeval/data/tsv.py'),('load_nested_folders_dict',D)],
['input_linear_mass_json()','output_linear_mass_json()','input_linear_mass_tsv()','load_nested_folders_dict()'])
p('C20','Summaries are population mean, deviation, variance and standard error',
"""Summarising a non-empty collection of values returns their arithmetic mean, population standard deviation, population variance, standard deviation divided by the square root of the count, and the count.
The variance is the mean squared deviation, hence never negative, and 0 exactly when all values are equal.""",
"all non-empty finite dictionaries of decimal or integer values",
"Tests use one list of eight integers.",
['segeval/util/math.py','segeval/compute.py'],[('mean/var/std/stderr','segeval/util/math.py'),('summarize','segeval/compute.py')],['summarize()'])
p('C21','Evaluation never changes its inputs or later results',
"""No metric, statistic, conversion or agreement function modifies the segmentations, sets, datasets, matrices or option dictionaries it is given.
Repeating a call, or making any other calls in between, never changes its result.""",
"all sequences of calls over all inputs and options",
"Tests call each function once per input, and never look at the inputs afterwards.",
[MB,SI,'segeval/util/__init__.py','segeval/compute.py',AG,W,ML],[('copied option dictionaries','segeval/util/__init__.py __fnc_metric__'),('set copies',"segeval/similarity/distance/multipleboundary.py __optional_set_edits__")],['all public functions'],over=('inputs','histories'))
p('C22','Incomparable or unsupported inputs are always rejected',
"""Every pairwise metric raises the package's segmentation metric error when the two segmentations differ in length, when the boundary format is none of the supported ones (for window metrics: mass, position or NLTK; otherwise also sets),
when the two datasets' formats differ, or when called without a pair or a dataset; it never returns a number in these cases.""",
"all pairs of segmentations of different lengths, all unsupported formats, all incomplete calls",
"Tests raise each error once or twice with one input.",
['segeval/window/pk.py','segeval/window/windowdiff.py',SI,AG,'segeval/util/__init__.py'],[('length and format checks','each metric'),('argument parsing','segeval/util/__init__.py __fnc_metric__')],['exceptions of all metric functions'])
p('C23','A segmentation scores the same in every format',
"""Expressing both segmentations as masses, as position labels, as NLTK strings or (for edit-based metrics) as boundary strings gives the same Pk, WindowDiff, boundary similarity, segmentation similarity, statistics and agreement values.""",
"all pairs of mass sequences and all encodings of them",
"Tests compare formats on one or two literals each.",
['segeval/window/pk.py','segeval/window/windowdiff.py',SI,AG,F],[('format dispatch','each metric')],['all metrics with boundary_format'])
p('C24','Metrics accept pairs positionally, by keyword, and as bare integers',
"""Calling a pairwise metric with hypothesis and reference by keyword, or a dataset by keyword, gives the same result as passing them positionally in that order, and options default identically in all forms.
A bare integer segmentation means a single segment of that mass.""",
"all segmentations, datasets and options",
"Tests use positional calls almost exclusively.",
['segeval/util/__init__.py'],[('__fnc_metric__','segeval/util/__init__.py')],['all metric functions'])
p('C25','Every public name is importable first',
"""Every name the package advertises, and every one of its modules, can be imported or accessed in a fresh interpreter regardless of which is touched first.""",
"all orders of first access to public names and modules",
"Tests import everything in one process, in one order, so an import cycle stays hidden.",
['segeval/__init__.py','segeval/util/__init__.py','segeval/compute.py'],[('lazy module attribute','segeval/__init__.py')],['import segeval.*'],over=('histories',))
with open('properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
