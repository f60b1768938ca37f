"""Writes /verif/properties.jsonl (kept as a script so the list stays reviewable)."""
import json, pathlib
P = []
DN='delayed_image/delayed_nodes.py'; DL='delayed_image/delayed_leafs.py'; DB='delayed_image/delayed_base.py'
HP='delayed_image/helpers.py'; LL='delayed_image/lazy_loaders.py'; CS='delayed_image/channel_spec.py'; SC='delayed_image/sensorchan_spec.py'
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=None)))

prop('C01','Optimizing a view never changes its declared size or channels',
 'For every view built by composing crops, affine warps, overviews, dequantization, channel selection and channel concatenation, the optimized view declares the same width and height, the same channel names in the same order and the same number of channels as the view it was made from.',
 ['programs','inputs'],'every composition of delayed operations over every image size, slice, transform, explicit or automatic output size, and band selection',
 'The tests optimize a handful of fixed chains; the number of rule interleavings (crop/warp/overview/dequantize/concat in every order) is combinatorial.',
 [DN,DL],[('rewrite rules of optimize() on every node type',DN),('nan leaf absorbs crops and warps',DL)],
 [('meta','declared dsize, channels, transform, slice of a node',DN)],['dsize','channels','num_channels','shape','optimize()'])
prop('C02','Optimizing a view keeps the leaf-to-view geometry',
 'The affine transform that a view reports from its source image, and the transform and band selection denoted by the operations reported in its graph, are unchanged by optimization: composing the optimized operations from the source to the view gives the same affine map (and the same source bands) as composing the operations the user requested.',
 ['programs','inputs'],'every composition of delayed operations with invertible affine transforms',
 'Tests compare a few rendered images visually or with loose tolerances; a wrong residual offset in one rewrite is only visible for particular chains, offsets or parities.',
 [DN,HP],[('crop/warp/overview swap rules',DN),('quantized crop with subpixel correction',HP)],
 [('transform','affine map of one node',DN)],['get_transform_from_leaf()','nesting()'])
prop('C03','Finalized pixels show the source location the operations map them to',
 'In the array a view evaluates to, with or without optimization, every valid pixel of every band shows the content of the source at the location obtained by inverting the composed operations (up to resampling precision), for non-antialiased linear and nearest resampling. Pixels well inside the source and every intermediate canvas are valid, and pixels well outside the source are not (NaN for floats, zero or the requested border value otherwise).',
 ['programs','inputs'],'every composition of operations, image size, dtype (float, integer, quantized), backing (memory, file, file with overviews) and resampling mode',
 'Tests assert shapes or compare one optimized/unoptimized pair; they do not know which source pixel each output pixel must show.',
 [DN,DL,HP],[('finalize of each node',DN),('optimize() rewrites',DN)],[],['finalize()'])
prop('C04','The evaluated array has exactly the declared shape',
 'Evaluating a view, with or without optimization, yields an array whose height, width and number of bands are the ones the view declared beforehand, with the number type of its sources where they share one (floats once dequantized), and evaluating to a labelled array labels the bands with the declared channel names.',
 ['programs','inputs'],'every composition of operations, odd and even sizes, one or many bands, named or unnamed channels, every leaf type',
 'Shape mismatches depend on parity, on which rewrite fired and on the leaf type; the tests sample a few.',
 [DN,DL],[('declared size arithmetic of crop, warp, overview',DN),('post-processing in finalize',DB)],[],['shape','finalize()','as_xarray()'])
prop('C05','Views are immutable: no operation changes an existing view',
 'Building on a view, optimizing it or evaluating it never changes the description (declared size, channels, operation graph and parameters) of that view or of any other view that existed before, and evaluating or optimizing the same view again at any later point gives the same result; views optimized together in one context come out as they do alone. This includes views that share sub-views.',
 ['histories','programs'],'every history of build/optimize/evaluate calls over a pool of views with shared sub-views',
 'Aliasing bugs need a particular earlier view to be looked at again after a particular rewrite fired on a descendant; tests build a fresh view, use it once and drop it.',
 [DN,DB],[('shallow node copies inside optimize()',DN),('optimization memo',DB)],
 [('memo','per-call map from node to optimized node',DB)],['nesting()','finalize()','optimize()'])
prop('C06','Optimization terminates, is idempotent and reaches normal form',
 'Optimizing any view terminates without error; optimizing the result again changes nothing; and in the result no two crops, warps or overviews are directly stacked, a channel concatenation has no spatial operation above it, no dequantization sits above a warp or below a crop, and no crop sits above a linear warp unless it is empty.',
 ['programs'],'every composition of operations accepted by the constructors (a second dequantization excepted)',
 'Termination and confluence are statements about every chain of rewrites; tests run fixed chains.',
 [DN,DL],[('recursive rewriting in optimize()',DN)],[],['optimize()','nesting()','as_graph()'])
prop('C07','Requested resampling parameters survive optimization',
 'Interpolation, antialiasing, border value, no-op tolerance and backend requested for a warp are the ones in force in every operation of the optimized view that replaces that warp (the outermost request wins when warps are merged), and the border value really fills pixels outside the source. Parameters given when a view is evaluated replace those of every warp below it. Warps the optimizer may remove are only those that are the identity within the requested tolerance and keep the canvas size.',
 ['programs','inputs'],'every combination of resampling parameters under every rewrite',
 'A parameter is lost only when the one rewrite that forgets it fires and the parameter is not at its default.',
 [DN],[('algorithm parameter propagation in every rewrite that rebuilds a warp',DN)],
 [('algo parameters','interpolation, antialias, border_value, noop_eps, backend',DN)],['nesting()','finalize()'])
prop('C08','Channel selection returns exactly the requested bands in order',
 'Selecting channels by name or by integer positions, on an image or across a concatenation and under any earlier crops, warps and selections, yields the bands with those names or positions in the requested order, with declared names to match. A requested name that does not exist yields an all-NaN band carrying that name, or an error when errors were asked for; with repeated names the first match is used.',
 ['programs','inputs'],'every band layout (named, unnamed, repeated, missing names), nested concatenations, repeated and permuted requests',
 'Index bookkeeping across parts is wrong only for particular layouts (contiguous runs, repeats, several parts); tests use two or three layouts.',
 [DN,DL,CS],[('flat index to part index mapping',DN),('segment accumulation',DN)],[],['take_channels','__getitem__','finalize()','channels'])
prop('C09','Crops select exactly the sliced pixels',
 'Cropping with slices selects exactly the rows, columns and bands that numpy slicing of the evaluated image selects, including open, negative, out-of-range and empty slices. A crop with clipping and wrapping disabled has exactly the requested extent plus padding, shows the image where it overlaps and is invalid (NaN or zero) elsewhere; nested crops compose.',
 ['programs','inputs'],'every slice pair, padding and nesting depth',
 'Off-by-one errors in clipping, wrapping and composing offsets show only at particular corner slices.',
 [DN],[('crop construction and crop fusion',DN),('padded crop via translation',DN)],[],['crop','__getitem__','dsize','finalize()'])
prop('C10','Relative transforms between views are consistent',
 'For any two views with a common source, the reported transform from one to the other equals the composition of the operations along the way: it is the identity from a view to itself, the inverse when the roles are swapped, and composes transitively; this includes views that pass through channel concatenations.',
 ['programs','inputs'],'every pair and triple of views over a shared source',
 'Tests check one pair with one scale and offset.',
 [DN,DB],[('transform from leaf, leaf paths through concatenation',DB)],[],['get_transform_from()','get_transform_from_leaf()'])
prop('C11','Undoing a warp removes exactly the requested components',
 'Undoing the warp of a view (or of each part of a concatenation) with everything removed brings it back to source resolution and orientation; with components retained, the returned transform is the inverse of the view geometry with the retained components left out, and it is exactly the transform applied to the view that is returned. Squashing all-NaN parts affects only all-NaN parts.',
 ['programs','inputs'],'every view geometry, every subset of components, with and without squashing and returned transforms',
 'Tests run one doctest configuration and never compare the returned transform with the returned view.',
 [DN],[('undo_warp / undo_warps',DN)],[],['undo_warp','undo_warps','finalize()'])
prop('C12','Overview levels have the right size and content',
 'An overview of level k of a view has size ceil(w/2^k) by ceil(h/2^k) and geometry scaled by exactly 2^-k; levels add up when overviews are stacked; when the file stores that level its stored pixels are what is read, and a level is never taken from a stored level that does not exist.',
 ['programs','inputs'],'odd and even sizes, levels 0-3, files with 0-3 stored overviews, overviews stacked on crops, warps, dequantization and concatenations',
 'Tests use images with power of two sizes and three overviews.',
 [DN,LL],[('overview node and overview rewrites',DN),('stored overview reads',LL)],[],['get_overview','dsize','finalize()'])
prop('C13','Lazy windowed reads equal slicing the whole image',
 'Reading any window and band subset lazily from a file, at any overview level and through any of the file readers, returns exactly the pixels, shape and dtype obtained by reading everything and slicing in memory (integers select one wide; window starts before the image are clipped to it; a single band may come without its axis; empty selections may be refused); reads are independent of earlier reads and of other readers of the file.',
 ['inputs','histories'],'every window, band selection, ellipsis form, dtype, band count, overview level and reader',
 'Each reader has its own index arithmetic; tests read a few windows of one image.',
 [LL,DL],[('slice rectification and read calls in each reader',LL)],[],['__getitem__','shape','dtype','get_overview'])
prop('C14','Nodata pixels are invalid, and only those, wherever they are read',
 'When a nodata policy is requested, exactly the source pixels equal to that band\'s stored nodata value come out as NaN (float policy) or masked (mask policy), per band, for every window, band selection, overview, crop and concatenation; without a policy the raw values come through unchanged.',
 ['inputs','programs'],'every placement of nodata pixels, per-band values, dtypes, windows and compositions of crops, band selections and concatenation',
 'Tests use one image with one nodata layout.',
 [LL,DL,DN],[('nodata masks in both read paths',LL),('nodata leaf',DL)],[],['finalize()'])
prop('C15','Quantization round-trips and dequantization is exact',
 'Dequantizing maps the quantized range affinely onto the original range, maps exactly the nodata code to NaN, and leaves shape and band order alone; quantizing then dequantizing returns every value within one quantization step, clips to the stated range and preserves NaN, and dequantizing commutes with cropping, band selection and overviews.',
 ['inputs','programs'],'every integer dtype, range, nodata code (representable or not) and composition',
 'Doctests try one or two ranges with random data.',
 [HP,DN],[('dequantize, quantize_float01',HP),('dequantization ordering rules',DN)],[],['dequantize','finalize()','quantize_float01'])
prop('C16','The bounded cache evicts strictly least-recently-used entries',
 'The bounded cache behaves as a mapping that never holds more than its capacity; looking an entry up or storing it makes it most recent, and each insertion beyond capacity drops exactly the least recently used entries. Membership tests, failed lookups and iteration do not change recency.',
 ['histories'],'every history of stores, lookups, deletions and membership tests, every capacity',
 'One doctest exercises one history.',
 [LL],[('CacheDict',LL)],[('order','recency order of keys',LL)],['CacheDict'])
prop('C17','A fused channel spec denotes one ordered list of bands',
 'Normalizing, compacting, sizing, indexing and slicing a fused channel spec all agree on the ordered list of bands it denotes: ranges and aliases expand in order, compact forms write each maximal run of consecutive indices as one range and expand back to the same list, sizes and component positions add up to that list, and parsing the printed form returns an equal spec.',
 ['inputs'],'every fused spec over names, ranges (start/stop/step, open forms), aliases and repeats',
 'Doctests check example strings; range edge cases and mixtures are combinatorial.',
 [CS],[('normalize, concise, sizes, numel, component_indices',CS)],[],['normalize','concise','sizes','numel','as_list','code_list'])
prop('C18','Channel set algebra follows ordered-set laws on bands',
 'Union, intersection, difference, concatenation, symmetric membership tests and subset tests on fused channel specs equal the same operations on the ordered sets (or lists, for concatenation) of bands they denote, for every mixture of ranges, aliases and plain names, and do not modify their operands.',
 ['inputs'],'every pair of fused specs',
 'Doctests cover a few pairs; interactions between compact ranges and plain names are untested.',
 [CS],[('set operators',CS)],[],['+','-','&','union','intersection','difference','issubset','issuperset'])
prop('C19','Channel specs split into streams and encode and decode losslessly',
 'A channel spec is a sequence of early-fused streams: stream order, per-stream bands, sizes, unique bands and component indices agree with one another; late fusion concatenates streams; encoding items by a spec whose codes are not repeated within a stream stacks exactly the listed bands of each stream in order and decoding returns the original per-channel data.',
 ['inputs'],'every comma/pipe spec and every matching item dictionary',
 'Doctests use two specs.',
 [CS],[('streams, encode, decode, component_indices, late_fuse',CS)],[],['streams','sizes','encode','decode','component_indices','late_fuse'])
prop('C20','Sensor-channel specs keep their meaning through every rewriting',
 'Expanding a sensor-channel spec distributes sensors over streams in order; normalizing, compacting and printing a spec and parsing it back always denotes the same set of sensor/stream pairs as the original, and both forms are stable when repeated (the compact one when no pair is repeated).',
 ['inputs'],'every spec over sensors, sensor groups, streams, ranges, aliases and the wildcard sensor',
 'Doctests check a few strings; grammar and factoring interactions are combinatorial.',
 [SC],[('parser, normalize and concise transformers',SC)],[],['normalize','concise','streams'])
prop('C21','Sensor selection and late fusion keep exactly the right streams',
 'Selecting the streams of a sensor returns exactly those written for that sensor or for the wildcard, in order; late fusion of sensor-channel specs keeps exactly the streams of its operands in order; listing streams, sensors and channels of a spec agrees with the parsed pairs.',
 ['inputs'],'every pair of specs and every sensor name',
 'Doctests cover a few specs.',
 [SC],[('matching_sensor, late_fuse, streams',SC)],[],['matching_sensor','late_fuse','streams','chans'])
prop('C22','Spec results do not depend on earlier calls',
 'The result of any operation on channel or sensor-channel specs depends only on its arguments: repeating it, interleaving it with operations on other specs, or having used the same text earlier in the process never changes a result, and no operation changes its operands.',
 ['histories'],'every history of spec operations in one process',
 'Memoization bugs need two related calls in one process; doctests call each operation once.',
 [CS,SC],[('memoized parsing and properties',CS),('cached normalization',SC)],[],['all spec operations'])
prop('C23','Graph introspection describes the real operation tree',
 'The nested description, the graph and the text rendering of a view list exactly one node per operation occurrence with the right type, parameters and parent-child edges in order; listing leafs yields exactly the source images in use; and introspection changes nothing.',
 ['programs'],'every composition of operations, including shared sub-views and nested concatenations',
 'Tests count nodes for a few optimized chains.',
 [DB,'delayed_image/util/util_network_text.py'],[('nesting, graph building, traversal, text rendering',DB)],[],['nesting()','as_graph()','leafs()','write_network_text()'])
prop('C24','Lazy shortcuts only skip operations that would do nothing',
 'Asking for a crop, warp or channel selection lazily returns the very same view only when the operation would change neither size, geometry, bands nor names; in every other case it returns the same view the non-lazy call returns.',
 ['inputs','programs'],'every argument combination of the lazy variants',
 'Tests check the positive no-op cases only.',
 [DN],[('lazy branches of crop, warp, take_channels',DN)],[],['crop(lazy=True)','warp(lazy=True)','take_channels(lazy=True)'])
prop('C25','The text form of a graph shows every node once and every edge',
 'Drawing a graph as text gives each node reachable from the roots exactly one line, in depth first order, nested under a neighbor; every other edge is listed to the right of a node it leads to; an ellipsis stands exactly where edges are drawn elsewhere or cut off by the depth limit or a collapsed node; default roots are a smallest set that reaches everything; the lines read back into the same graph; and every way of writing gives the same lines.',
 ['inputs'],'every directed and undirected graph (cycles, self loops, several components), every choice of roots, depth limit, collapsed nodes, labels and glyph set',
 'Tests render a handful of graphs and compare to stored text.',
 ['delayed_image/util/util_network_text.py'],[('generate_network_text, write_network_text, parse_network_text, forest_str','delayed_image/util/util_network_text.py')],[],['generate_network_text','write_network_text','parse_network_text','forest_str'])
prop('C26','Every way of asking for a warp gives the requested map on the right canvas',
 'Warping by a matrix, an affine object, parameters, a scale factor or a target size gives a view with exactly the requested map and unchanged bands; a requested canvas is declared exactly as asked, and an automatic canvas is the smallest one anchored at the origin that holds the whole part of the warped image with positive coordinates.',
 ['inputs','programs'],'every size, ratio, offset, rotation, mirroring and shear, requested as any of the accepted forms, on views of any history',
 'Tests use a few round factors of one image; rounding of canvases depends on size and factor together.',
 [DN,HP],[('warp, scale, resize, DelayedWarp constructor',DN),('_auto_dsize',HP)],[],['dsize','get_transform_from_leaf()','warp','scale','resize'])
prop('C27','What is said about a file beforehand does not change the image',
 'A file loaded with its channels, size or overview count given in advance (all, some or none of them, prepared or not, prepared once or twice, path as text or as a path object) and everything built on it declares the same sizes, channels and operations and evaluates to the same pixels as when all of that is read from the file; so does a plain file read on a system without GDAL.',
 ['configurations','programs'],'every truthful combination of what is known in advance, under every composition of operations',
 'The metadata decides which overviews and crops the optimizer uses; the difference shows only for a partially described file under a particular later operation.',
 [DL,DN],[('DelayedLoad.__init__, prepare, _load_metadata',DL),('num_overviews of derived nodes',DN)],[('file metadata','dsize, num_channels, num_overviews known or unknown',DL)],['finalize()','dsize','optimize()'])
out = pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
out.write_text(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
