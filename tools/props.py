import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))

p("C01","Resampling conserves the sum of every weight under every thread schedule",
 "Cell resampling never changes the sum of the central weights of the sample, nor the sum of any of the additional (named) weights, up to floating-point rounding. It neither loses, adds nor renumbers events, and it changes nothing of an event but its weights. This holds for every sample, every seed strategy, every maximum cell size and every interleaving of the worker threads.",
 ["schedules","inputs","configurations"],"all interleavings of the cell tasks of small samples (2-5 events, several overlapping cells), all seed strategies, limited and unlimited cell size, several weights per event",
 "The repository has no test of the resampler at all; a sum that is off only when two cells overlap in time needs one particular interleaving out of many.",
 ["src/resampler.rs","src/cell.rs","src/event.rs"],[("average over write-locked members","src/cell.rs Cell::resample"),("ordered locking","src/cell.rs write_lock_weights"),("weights behind an RwLock","src/event.rs Event::weights")],["events returned by Resample::resample"],[("weights","weights of one event","src/event.rs Event")])

p("C02","Resampling and reading terminate normally under every thread schedule",
 "For every finite sample and every interleaving of the worker threads, resampling ends, without deadlock, panic or endless retrying, and so does the complete run from reading the events to writing the weights. No two workers ever wait for each other's events.",
 ["schedules","inputs"],"all interleavings of overlapping cells of samples with 2-5 events, and of reading 2-4 records in parallel, including conversion errors",
 "A deadlock needs two cells which share two events and lock them at the same time; a test on one schedule never sees it.",
 ["src/cell.rs","src/resampler.rs","src/cres.rs"],[("members are sorted before locking","src/cell.rs Cell::resample"),("scope with spawned conversions","src/cres.rs read_events")],["return of Resample::resample and Cres::run"])

p("C03","Unlimited cells remove every negative weight, whatever the schedule",
 "If the sum of central weights is not negative and the cell size is unlimited, then after resampling no event has a negative central weight, for every interleaving of the worker threads. With any cell size the sum of absolute weights never grows and no weight leaves the range spanned by the smallest and largest original weight. If every weight is non-negative to begin with, nothing changes at all.",
 ["schedules","inputs","configurations"],"all interleavings and all weight assignments from a small alphabet on samples of 2-5 events",
 "The guarantee compares the state when a cell is built with the state when it is averaged, which only differ if another worker gets in between.",
 ["src/cell.rs","src/resampler.rs","src/seeds.rs"],[("cell grows until its weight is non-negative","src/cell.rs Cell::new"),("only negative-weight seeds","src/resampler.rs Resampler::resample")],["events returned by Resample::resample"])

p("C04","One worker thread produces exactly the cells of the published algorithm",
 "With a single worker, seeds are treated in the order of the chosen strategy (most negative first, least negative first, or order of appearance); a seed that is no longer negative is skipped. A cell takes in the nearest events, in order of distance, until its summed central weight is non-negative, no event is left, or the next one is farther than the maximum cell size; every weight of its members then becomes the mean over the cell and all other events keep their exact weights. Each cell that was built is reported once to the observer, with its members, its radius and its weight.",
 ["inputs","configurations"],"all samples of up to 5 events on a line or in an explicit metric with weights from a small alphabet incl. zero and ties, all strategies, both search algorithms, several maximum cell sizes",
 "No test builds a cell; boundary cases (weight exactly zero, distance exactly equal to the limit, exhausted neighbours) are combinations of inputs that only enumeration reaches.",
 ["src/cell.rs","src/resampler.rs","src/seeds.rs","src/neighbour_search.rs"],[("cell construction","src/cell.rs Cell::new"),("seed selection","src/seeds.rs StrategicSelector"),("observer","src/resampler.rs Resampler::resample")],["events returned by Resample::resample","ObserveCell"])

p("C05","Nearest-neighbour search returns every neighbour, in order, within the limit",
 "For every finite set of points, every distance that is a (pseudo)metric, and every query point, both search algorithms return each other point whose distance does not exceed the maximum exactly once, in non-decreasing order of distance, with its true distance, and nothing else. Both ways of building the search tree, sequential and parallel, give this result whatever the number of points.",
 ["inputs","schedules"],"all (pseudo)metrics with integer distances on up to 5-6 points, all queries, all limits; large structured sets for the parallel construction; all task interleavings of small builds",
 "Existing tests try a single metric on one set of points; pruning bugs depend on ties, zero distances and the position of the limit relative to the tree radii.",
 ["src/vptree.rs","src/neighbour_search.rs"],[("vantage-point tree with pruning by radius and limit","src/vptree.rs nearest_in_subtree"),("naive search","src/neighbour_search.rs NaiveNeighbourIter")],["iterator over nearest neighbours"])

p("C06","The event distance is the optimal-matching metric of the publication",
 "The distance between two events is the sum over particle types of the smallest possible sum of momentum distances under any pairing of the particles, where missing particles count as zero momentum and a momentum distance is the Euclidean distance of the three-momenta plus, weighted by tau, the difference in transverse momentum in quadrature. It is never negative, is zero for equal momenta, symmetric, and satisfies the triangle inequality, and does not depend on the order in which particles were added.",
 ["inputs"],"all pairs and triples of events from an alphabet of momenta with up to 5 particles per type and up to 3 types, several tau",
 "The unit tests check one hand-written pair per multiplicity; matching errors and mishandled missing types depend on the combination.",
 ["src/distance.rs","src/event.rs","src/four_vector.rs"],[("permutations up to 3 particles, Hungarian algorithm above","src/distance.rs min_paired_distance"),("merge over particle types","src/distance.rs Distance for EuclWithScaledPt")],["Distance::distance"])

p("C07","Written event files equal their input except for the event weights",
 "Rewriting a sample reproduces each input file byte for byte, including header, comments, unknown blocks, extra whitespace and footer, except for the weight values that were asked to be updated. A weight whose value did not change reads back as the same number, a record without a new weight stays byte for byte as it is, and a changed weight reads back as exactly the value that was written. Only the blanks right next to a weight value may differ. This holds for HepMC, LHEF and STRIPPER XML files, single or several of them, compressed or not.",
 ["inputs","configurations"],"all combinations of record shapes (optional lines, whitespace, number formats, weight blocks, named weights) for 0-3 events in 1-3 files per format",
 "Sample files in the tests exercise a single shape of each record; loss of bytes hides in the rare shapes, in the last record or in the joint between files.",
 ["src/io.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs"],[("record-wise copy with replaced weight fields","src/hepmc2.rs FileIO, src/lhef.rs FileIO, src/stripper_xml.rs FileIO"),("files in sequence","src/io.rs CombinedFileIO")],["bytes of the output files"])

p("C08","Every record receives the weight computed for its own event",
 "A complete run gives each event record of the input the new weight of that very event, in the original order of the records, whatever order the worker threads finish converting them in, for events without identified particles, and across several input files. If any record cannot be converted, the run reports an error and no success, under every interleaving.",
 ["schedules","inputs","fault_sequences"],"all interleavings of the conversion tasks for 2-4 records, with and without empty events and with a failing conversion at every position",
 "The association is by index over an unordered collection filled in parallel; one schedule per test cannot show it for all.",
 ["src/cres.rs","src/io.rs"],[("id attached when the record is read","src/cres.rs read_events"),("sorted by id and copied into an index","src/cres.rs Cres::run")],["weights handed to UpdateWeights","output files"])

p("C09","Unweighting keeps the weight sum and discards with the stated probability",
 "After unweighting the sum of central weights is the one before, in memory and in the written sample, and within an event all weights keep their ratios. An event with absolute weight at or above the threshold is always kept; one below is kept exactly if its random draw falls below its share of the threshold and is then raised to the threshold, with its sign, before the common rescaling. If the weights that are left sum to zero there is no common factor and they stay as they are; no weight ever becomes infinite or undefined. A zero threshold changes nothing, events that are discarded carry weight zero in the output, and records without any particles keep their weight.",
 ["inputs","histories"],"all weight assignments from a small alphabet for up to 4 events and all sequences of random draws from a grid, several thresholds",
 "There is no test of the unweighter, and its behaviour depends on the draws of the random numbers, including the case in which nothing survives.",
 ["src/unweight.rs","src/cres.rs"],[("accept-reject and rescaling","src/unweight.rs Unweighter"),("weights of discarded events","src/cres.rs Cres::run")],["Unweight::unweight","output files"])

p("C10","The same physical event is read the same from every input format",
 "An event written as HepMC (in GeV or MeV), LHEF or STRIPPER XML is read as the same outgoing particles, momenta in GeV and weights. Only final-state particles count, each exactly once. Named weights that were asked for are attached after the central weight in the order of the record; one that a record lacks is an error.",
 ["inputs","configurations"],"all events with up to 3 particles from an alphabet of types, momenta and status codes and up to 3 weights, in all formats and number notations",
 "Tests parse a handful of sample events and compare none across formats; field offsets, status codes and unit conversion are wrong only for particular records.",
 ["src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs","src/parsing.rs","src/io.rs"],[("record parsers","src/hepmc2.rs HepMCParser, src/lhef.rs LHEFParser, src/stripper_xml.rs"),("format-independent conversion","src/io.rs Converter")],["Converter::try_convert"])

p("C11","Particles are grouped into jets, leptons and photons as configured",
 "Quarks, gluons and hadrons enter jet clustering and nothing else does; with a lepton definition, electrons, muons, their antiparticles and non-isolated photons are combined into dressed leptons; photons with at least the minimum transverse momentum, which also exceeds the configured fraction of the transverse energy of everything else but muons and neutrinos within the cone, become isolated photons; neutrinos are dropped unless asked for; every other particle is kept as it is. Only jets and dressed leptons above the minimum transverse momentum are kept. Weights and identity of the event are unchanged.",
 ["inputs","configurations"],"all events of up to 4 particles over an alphabet of types and directions, for all combinations of the jet, lepton, photon and neutrino settings",
 "There is one test for photons and one for neutrinos; the classification is a product of particle type, settings and cone content.",
 ["src/cluster.rs"],[("classification","src/cluster.rs DefaultClustering::cluster"),("isolation","src/cluster.rs is_isolated")],["Clustering::cluster"])

p("C12","A partition assigns every event to exactly one region, reproducibly",
 "A partition into N regions (N a power of two) built from a sample assigns each conceivable event to exactly one region between 0 and N-1, and the same one after writing and reading back the partition. Each division is by distance to a chosen event of the sample, splits the other events of its part of the sample at their median distance, so that no more than half of them are strictly closer and no more than half strictly farther than the recorded radius, and events closer than or at the recorded radius lie in the inner region. A sample too small for the requested number of regions is refused with an error.",
 ["inputs","configurations"],"all small metrics and sample sizes 0-20 for 1-8 regions, all query points",
 "No test covers building a partition; the halves, the numbering of the regions and too small samples depend on the sample size relative to the number of regions.",
 ["src/partition.rs","src/vptree.rs","src/bin/partition.rs"],[("tree to partition","src/vptree.rs From<VPTree> for VPTreePartition"),("descent","src/partition.rs region")],["VPTreePartition::region","cres-partition output"])

p("C13","Classification splits a sample into complete, disjoint, ordered parts",
 "Classifying a sample writes each event record, unchanged, to exactly one output, the one of the region its event belongs to, and keeps the order of the records within it. Every output is a well-formed file of the input's format with the header of its input, also when it receives no event, and together they contain every record of all inputs.",
 ["inputs","configurations"],"all assignments of up to 4 events to up to 4 regions, per format, with one and two input files, with and without compression",
 "There is no test of the tool; missing, duplicated or misplaced records show only for particular distributions of events over files and regions.",
 ["src/bin/classify-events.rs","src/partition.rs","src/io.rs"],[("copy per region","src/bin/classify-events.rs")],["output files of cres-classify-events"])

p("C14","Damaged input is reported as an error, never a crash or a silent loss",
 "An event file that is truncated or damaged in any single place makes reading and rewriting either report an error or yield the events that are in the file: all events but the damaged one and the one just before it come out unchanged and in order, and none of those is dropped without an error. No input makes a run panic, abort, hang or exhaust the memory. Reading again after rewinding gives the same events and the same error.",
 ["inputs","fault_sequences"],"every truncation point and every single-byte replacement from a small alphabet, and every deleted, duplicated or swapped token and line, of small files in each format",
 "Tests only read valid files; every byte position of a file is a different input.",
 ["src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs","src/parsing.rs","src/io.rs"],[("record readers","src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs"),("error types","src/io.rs FileIOError")],["Iterator of EventFileIO","Cres::run"])

p("C15","A failed write is never reported as success",
 "If the operating system refuses a write at any byte of any output, for instance since the disk is full, then the tool ends with an error. When it reports success, every output file is complete and readable. This holds for plain and for compressed output. The same goes for a read of an input that fails.",
 ["fault_sequences","crash_points"],"a write limit at every byte of the output, for each format, each compression and each tool",
 "The tests never make a write fail, and the last writes happen when files are closed, where errors are easily dropped.",
 ["src/io.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs","src/compression.rs","src/bin/main.rs","src/bin/classify-events.rs","src/bin/partition.rs"],[("flushing at the end of an update","src/io.rs update_all_weights"),("compressors","src/compression.rs")],["exit status and output files"])

p("C16","Compressed input and output are transparent",
 "Whatever supported algorithm (bzip2, gzip, zstd, lz4) and level is chosen, what is written decompresses to exactly what would have been written without compression, and compressed input of any supported kind, recognised by its content alone, is read as the uncompressed file. The event format, too, is recognised by content alone.",
 ["inputs","configurations"],"all algorithms and levels times a set of payloads (empty, one byte, around buffer sizes) and sequences of writes, all formats, every byte of a file at the end of a read buffer or of a compressed block",
 "The tests compress nothing; a missing end of stream shows only for a payload that the encoder still buffers.",
 ["src/compression.rs","src/io.rs","src/util.rs"],[("compress_writer","src/compression.rs"),("detection by magic bytes","src/io.rs")],["compress_writer, output files"])

p("C17","Event I/O behaves as a simple cursor for every sequence of operations",
 "Reading, rewinding and updating in any order behave like a cursor over the concatenated records of all files: after a rewind the same records come again, each update consumes one record, and past the end both report the end, without panic. A sample rewound after any partial use gives the same result as a fresh one.",
 ["histories","inputs"],"all sequences of next, rewind, update next, update all and size queries up to length 5-6 over 1-3 files with 0-2 events each, for each format",
 "Tests only read to the end once; state left from a partial read shows only in particular sequences.",
 ["src/io.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs"],[("files in sequence with a current index","src/io.rs CombinedFileIO"),("per-format rewind","src/*.rs Rewind impls")],["Iterator, Rewind and UpdateWeights on CombinedFileIO"],[("current","index of the file being read","src/io.rs CombinedFileIO")])

p("C18","The C interface gives the results and errors of the Rust library",
 "Running through the C functions gives the same output file as the Rust library with the same options. Distance callbacks see each event's true identifier, weights and momenta, no matter what other threads do. Every failure comes back as a non-zero status with a message that can be read in full or, with a short buffer, truncated with its terminator; it stays the same until the next error. Views convert back to the events they show.",
 ["configurations","inputs","schedules"],"all combinations of the C options over small samples, all schedules of small runs with callbacks, all buffer lengths for messages, all error histories up to length 4",
 "The C interface has no automated test.",
 ["src/c_api/cres.rs","src/c_api/distance.rs","src/c_api/error.rs","src/c_api/event.rs"],[("cres_run","src/c_api/cres.rs"),("event views","src/c_api/distance.rs"),("last error","src/c_api/error.rs")],["output file, status and error message"])

p("C19","The cell collector keeps the extreme cells, however workers split the cells",
 "When cells are collected by any number of workers and then combined, the ten largest cells by radius, by number of members and by weight, and up to ten random ones, of all cells are the ones kept, as if a single worker had seen them all. The first cells are the first in numbering, numbers of different cells never clash, and the reported map lists each kept cell's events.",
 ["histories","inputs","schedules"],"all ways to split small sequences of cells with sizes around the limit over two collectors, in all orders from a small alphabet of radii",
 "There is no test; combining only happens with more than one thread.",
 ["src/cell_collector.rs","src/resampler.rs"],[("collect and combine","src/cell_collector.rs"),("thread-local observers","src/resampler.rs Observer")],["CellCollector::event_cells"])

p("C20","Events group particles by type without loss, in any order of insertion",
 "An event built from any sequence of particles holds exactly those particles, grouped by type with each type once, in an order that does not depend on the insertion order; looking up a type returns all its momenta and nothing else. Weights come back in the order they were added, the first being the central one; rescaling multiplies each energy, momentum or weight once.",
 ["inputs","histories"],"all insertion sequences of up to 5 particles over small alphabets of types and momenta, with up to 3 weights",
 "There is no unit test for the container; lookups rely on an ordering that only several types in a particular order exercise.",
 ["src/event.rs","src/four_vector.rs"],[("sort and group","src/event.rs compress_outgoing"),("binary search","src/event.rs outgoing_with_pid")],["Event::outgoing, outgoing_with_pid, weights"])

p("C21","Runs with one thread and the same seed are reproducible",
 "Two runs of the command-line tool with the same input, options, random seed and one thread write identical outputs, and the outputs are those of the library run with the same settings. Each documented option takes effect as documented: no option is ignored, and the outputs appear under the input's name in the output directory.",
 ["configurations","inputs"],"all combinations of strategy, search, maximum cell size, threshold, seed, jet and lepton settings, output format and compression over a small sample",
 "No test runs the executables; a swapped or dropped option shows only in the option's own effect.",
 ["src/bin/main.rs","src/bin/opt_cres.rs","src/bin/opt_common.rs","src/bin/opt_cres_validate.rs"],[("options to builders","src/bin/main.rs")],["output files of cres"])

p("C22","Builds with and without multiple weights agree on the central weight",
 "For a sample in which only the central weight matters, the build with support for several weights and the one without it produce the same central weights and the same cells, and leave the same records untouched.",
 ["configurations","inputs"],"all samples of the enumeration of C04 with up to 4 events, and complete runs over all formats",
 "The repository tests one build at a time and never compares them.",
 ["src/cell.rs","src/event.rs","src/hepmc2.rs","src/lhef.rs","src/stripper_xml.rs","src/unweight.rs"],[("two implementations of averaging","src/cell.rs Cell::resample"),("two update functions per format","src/hepmc2.rs, src/lhef.rs, src/stripper_xml.rs")],["central weights, output files"])

p("C23","STRIPPER XML weights are rescaled so that files combine correctly",
 "The weights read from STRIPPER XML event files are the weights in the file times the cross section given in the normalisation file of their channel, divided by the total number of events (`nevents`) in all event files of that channel that are read together, in whatever order the files are listed. Writing back an unchanged weight reproduces the number in the file, also when the cross section is zero. Each sub-event is one event, in order of appearance. A channel without a normalisation file is an error.",
 ["inputs","configurations"],"all small sets of 1-3 files with up to 2 events of up to 3 sub-events each, normalisations and names from a small alphabet",
 "One sample file is read in the tests; the rescaling depends on several files together.",
 ["src/stripper_xml.rs","src/io.rs"],[("scale from the normalisation section","src/stripper_xml.rs"),("joint scale of all files","src/io.rs IOBuilder")],["events and output files"])

p("C24","Option values are either understood exactly or refused",
 "Every accepted option value means exactly what the documentation says: jet, lepton and photon definitions only in complete sets, compression names with levels inside the allowed range, strategies, jet algorithms and search algorithms by all their documented names, numbers that are finite and not negative where a negative value has no meaning. Anything else ends with an error before any output is written.",
 ["inputs","configurations"],"all strings over the alphabet of documented names, levels around the limits and near misses, all subsets of the dependent options",
 "Tests contain no option parsing.",
 ["src/bin/opt_common.rs","src/bin/opt_cres.rs","src/bin/opt_cres_validate.rs","src/bin/opt_classify.rs","src/bin/opt_partition.rs","src/compression.rs","src/formats.rs"],[("FromStr parsers and validation","src/bin/opt_common.rs, src/bin/opt_cres_validate.rs")],["exit status and outputs of the tools"])

p("C25","Input files survive every run and outputs never overwrite one another",
 "No run of any tool changes, truncates or removes one of its input files, whatever options, paths and errors are involved. Two inputs never write to the same output file; a conflict ends with an error before anything is written.",
 ["configurations","fault_sequences"],"all arrangements of input and output paths (same directory, equal file names in different directories, links, missing directories) for each tool",
 "Tests write to fresh directories only.",
 ["src/io.rs","src/bin/main.rs","src/bin/classify-events.rs"],[("creation of output files","src/io.rs IOBuilder, src/bin/main.rs")],["bytes of the input files after a run"])
p("C26","Reported statistics describe the sample, and reporting changes nothing",
 "The messages of a run state what happened: the number of events read and of those ignored because they contain no identified particles, the number of events in each category of particle types and multiplicities, the sum of weights with its statistical error and the fraction of negative weights before and after resampling, the number of cells, how many have negative weight, their median radius, and the members, radius and weight of the cells that were collected. The log level and the collection of cells change neither the weights nor whether the run succeeds; no message makes a run panic.",
 ["inputs","configurations","schedules"],"all samples up to five events over small weight alphabets with all settings, larger families, all interleavings of the resampler for small samples, each at every log level",
 "Tests ignore the messages.",
 ["src/cres.rs","src/resampler.rs","src/cell_collector.rs"],[("reports before and after","src/cres.rs Cres::run"),("cells","src/resampler.rs Resampler::resample, src/cell_collector.rs CellCollector::dump_info")],["log messages of a run"])
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
