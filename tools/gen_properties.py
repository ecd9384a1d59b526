import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)
L='src/viqa/utils/loading.py'; M='src/viqa/utils/misc.py'; FR='src/viqa/fr_metrics/'; NR='src/viqa/nr_metrics/'
p('C01','Full-reference metrics only ever score a compatible pair of images',
"Whatever two inputs (plain arrays, image arrays, tensors, paths of existing files or other objects) are given, a full-reference metric either works on two images of identical shape and identical data type whose values are exactly those of the inputs after the requested normalisation and region crop, or it raises ValueError and produces no score. Inputs of an unsupported type, images that are neither 2D nor 3D, and pairs whose shapes or data types differ after normalisation and crop are always rejected this way. A colour pair (three axes, the last of length 3) given to a metric that is not declared chromatic is reduced to its luminance images before scoring, and a metric declared chromatic rejects every other pair.",
['inputs','configurations'],'All input kinds, shapes, data types, and combinations of normalize/data_range/chromatic/roi.',
'The tests use a few equal-shaped arrays; they never vary dtype or shape of one side, never load tensors or paths, and never use chromatic input.',
['src/viqa/_metrics.py',L,M],[('load_images','src/viqa/_metrics.py'),('load_data, _check_imgs',L),('_to_grayscale',M)],['any full-reference metric .score','viqa.load_data'])
p('C02','Normalisation is the exact affine map onto the requested range',
"For every integer or floating-point image with at least two distinct values, normalising to the range 0-1, 0-255 or 0-65535 maps each voxel v to (v - lo) / (hi - lo) * range, where lo and hi are the extrema of the image or the explicitly given input range (which contains the data); the result has type float32, uint8 or uint16 respectively (rounded down for the integer types), stays inside the range, never reorders voxels, and the extrema of the image are mapped exactly to the two ends of the range. Data whose type spans exactly the requested range is returned unchanged together with a warning. Any other data type or target range, and a missing input range when automatic detection is switched off, raises ValueError.",
['inputs'],'All images (shape, values, every integer and float dtype), all target ranges, automatic and explicit input ranges.',
'No test calls the normalisation on integer types; overflow depends on the dtype and the value span, rounding on the exact extrema.',
[L],[('normalize_data',L),('load_data(normalize=True)',L)],['viqa.normalize_data','viqa.load_data'])
p('C03','Cropping returns exactly the requested box',
"For every 2D, colour or 3D image and every box that lies inside it, cropping returns exactly the voxels of that box in their original order and with all colour channels, including boxes that keep a whole axis. A box that is larger than the image along any axis, or a 3D image without a range for its third axis, raises ValueError. Loading an image with a region of interest gives the same voxels as loading (and normalising) the whole image and cropping it afterwards.",
['inputs'],'All shapes and all boxes.',
'No test crops an image; the relation between box and shape has unboundedly many cases (equal on some axes, colour axis, offsets).',
[L],[('crop_image',L),('load_data(roi=...)',L)],['viqa.crop_image','viqa.load_data(roi=...)'])
p('C04','Raw and mhd volumes decode every voxel at its coordinates',
"An uncompressed little-endian .raw or .mhd volume of X x Y x Z voxels loads as an array of shape (X, Y, Z) whose element [x, y, z] is the file's value number x + X*(y + Y*z), decoded with the element type that the file name or the header names, for every supported element type. A data file whose number of values differs from X*Y*Z, a raw file name without dimensions or bit depth, an unsupported bit depth or element type, or an unsupported file extension raises ValueError instead of returning an image.",
['inputs'],'All dimensions, all element types, all file contents, all file-name and header layouts.',
'The raw test volumes are not part of the repository; a transposed axis or a swapped type is invisible on symmetric data.',
[L],[('load_raw, load_mhd, _load_binary, _parse_bitdepth, _load_data_from_disk',L)],['viqa.load_data(path)'])
p('C05','A metric reports exactly its last successful score',
"Whenever a score call returns, the metric's stored score equals the returned value; whenever it raises, the stored score is the same as before the call. Comparing a metric with another metric or with a number by ==, !=, <, <=, > or >= answers exactly as comparing the stored scores would, and printing shows the stored score rounded to the requested decimals. Printing a metric that holds no score issues a RuntimeWarning and prints nothing.",
['inputs','histories'],'All metrics, all sequences of successful and failing score calls, all stored values.',
'Tests check one comparison and a few prints; the failure histories and the remaining operators are never exercised.',
['src/viqa/_metrics.py',FR+'*.py',NR+'snr.py',NR+'cnr.py'],[('score / score_val','every metric class'),('comparison operators','src/viqa/_metrics.py'),('print_score','every metric class')],['metric.score','metric.score_val','metric.print_score'],[('score_val','last score','src/viqa/_metrics.py')])
p('C06','PSNR and RMSE equal their definitions on every pair',
"For every compatible pair, RMSE is the square root of the mean squared voxel difference and PSNR is 10*log10(data_range^2 / mean squared difference), both computed on the true voxel values whatever the storage type. PSNR is infinite exactly when the images are identical, and RMSE is zero exactly then. Exchanging the two images changes neither score.",
['inputs','configurations'],'All shapes, dtypes, voxel values and data ranges.',
'Tests compare identical, opposite and random images only, so a wrong factor, range, dtype wrap-around or comparison shortcut can pass.',
[FR+'psnr.py',FR+'rmse.py'],[('PSNR.score',FR+'psnr.py'),('RMSE.score',FR+'rmse.py')],['PSNR.score','RMSE.score'])
p('C07','SSIM and UQI equal their definitions on every pair',
"For every compatible pair and every valid setting (odd window of at least 3 that fits into the image, integer exponents), SSIM is the mean, over all positions at least half a window away from the border, of luminance^alpha * contrast^beta * structure^gamma built from the local (Gaussian or uniform) means, variances and covariance (with the sample correction n/(n-1) for n window elements, except for a Gaussian window of default size) with the constants (K1*range)^2, (K2*range)^2 and half of the latter; UQI is the same with both constants zero and a uniform window; for colour images SSIM is the mean of the per-channel scores multiplied by their colour weights. Identical images score 1 and exchanging the two images does not change the score. Negative constants, an even window or a window larger than the image raise ValueError.",
['inputs','configurations'],'All shapes, voxel values, window sizes, weights, exponents and constants.',
'Tests check only extreme pairs; UQI has no test, and no test pins the formula for a setting other than the default.',
[FR+'ssim.py',FR+'uqi.py'],[('structural_similarity',FR+'ssim.py'),('SSIM.score',FR+'ssim.py'),('UQI.score',FR+'uqi.py')],['SSIM.score','UQI.score'])
p('C08','Slice arguments select exactly the requested slices of a volume',
"For a 3D volume, FSIM, GSM, MAD, MS-SSIM, VIFp and VSI called with an axis and an integer slice number score exactly the pair of 2D slices at that number of that axis, and called with an axis only they return the mean of the 2D scores over all slices along that axis; the data range and every extra parameter reach each 2D score unchanged. An axis other than 0, 1 or 2, a missing axis, or a slice number that is not an integer raises ValueError. For 2D images the score does not depend on axis and slice arguments.",
['inputs','configurations'],'All volume shapes, all axes and slice numbers, all six slice-wise metrics.',
'Only FSIM and MAD have tests, on cubes with random data where picking a wrong axis or slice goes unnoticed.',
[FR+'fsim.py',FR+'gsm.py',FR+'mad.py',FR+'msssim.py',FR+'vif.py',FR+'vsi.py',M],[('score',FR+'{fsim,gsm,mad,msssim,vif,vsi}.py'),('gradient_similarity_3d',FR+'gsm.py'),('most_apparent_distortion_3d',FR+'mad.py'),('_check_chromatic',M)],['metric.score(dim=, im_slice=)'])
p('C09','GSM equals its definition for every data type',
"For every 2D or 3D pair, GSM correlates both images with the gradient kernels along the axes and diagonals, takes per image the response with the largest mean magnitude, and returns the mean (ignoring undefined positions) of (1-W)*g + W*l, where g = (2(1-R)+K)/(1+(1-R)^2+K), R is the gradient difference relative to the stronger of the two gradients, K = c / largest gradient magnitude, l = 1 - (difference/data_range)^2 and W = p*g. The score depends only on the voxel values, not on the integer or float type that stores them. Identical images with any non-zero gradient score 1.",
['inputs','configurations'],'All shapes, values, dtypes, data ranges and parameters c and p.',
'GSM has no test at all.',
[FR+'gsm.py','src/viqa/kernels.py'],[('gradient_similarity',FR+'gsm.py'),('kernels','src/viqa/kernels.py')],['GSM.score'])
p('C10','MAD combines correctly placed block statistics and is call-independent',
"For every 2D pair with sides larger than twice the block size and every valid block size and overlap, MAD is detect^a * appear^(1-a) with a = 1/(1 + beta1*detect^beta2), where the statistics used at a position are those of the block that starts in its own stride cell. Identical images score 0, and the score depends only on the arguments of the call, never on earlier calls. A block size that is not positive or exceeds the image, an overlap outside [0, 1), or a number of weights different from the number of scales raises ValueError.",
['inputs','configurations','histories'],'All image shapes, block sizes, overlaps, weights, thresholds, and all preceding calls.',
'Tests use square images whose side is a multiple of the stride with default blocks; call order and other geometries are not covered.',
[FR+'mad.py',M],[('most_apparent_distortion, _high_quality, _low_quality',FR+'mad.py'),('_extract_blocks',M)],['MAD.score'],[('M, N, BLOCK_SIZE, STRIDE','geometry of the current call',FR+'mad.py')])
p('C11','The native block-statistics kernel is memory-safe and exact',
"For every 2D image of any shape, memory layout and real type, and every block size and stride with 0 < stride <= block size, the native routines read and write only inside the image and the result arrays, release everything they allocate except their results, and reject all other arguments with an exception. At every position of the stride cell of a block, the results are the block's sample standard deviation, skewness and kurtosis (both 0 for constant blocks), or for the minimum routine the smallest deviation among blocks that includes the block's own; positions outside all cells are 0.",
['inputs'],'All shapes, strides, block sizes, layouts, dtypes and values.',
'The C code is only reached through MAD on square images; out-of-bounds accesses and leaks do not fail a test.',
[FR+'stat_utils/statisticsmodule.c'],[('minstd, getstatistics, pymatrix_to_Carrayptrs',FR+'stat_utils/statisticsmodule.c')],['statisticscalc.minstd','statisticscalc.getstatistics'])
p('C12','Batch results equal fresh calculations for every pair',
"For every list of image pairs, in any order and with any repetitions, every set of metrics and every choice of regions, the batch result of each pair equals what calculating the same metrics on that pair alone with its own region would give. Reuse of images or results of earlier pairs is never observable in the values.",
['inputs','histories'],'All sequences of pairs, regions, image formats and metrics.',
'There is no test for batches; caching errors need particular repetitions of paths combined with different regions or shapes.',
['src/viqa/multiple.py'],[('BatchMetrics.calculate, _calc','src/viqa/multiple.py')],['BatchMetrics.calculate'],[('previous paths and results','cache carried between loop iterations','src/viqa/multiple.py')])
p('C13','Calculating several metrics gives each metric its own prepared-pair score',
"Calculating a list of metrics on a pair returns one entry per full-reference metric under its name, and two entries per no-reference metric under its name with the suffixes _r (reference) and _m (modified image), each equal to what that metric alone scores, with its own parameters, on the prepared pair. The prepared pair is the reference image and the modified image, both loaded and (if requested) normalised, the modified one resized to the reference's shape and converted to its type if the shapes differ, and both cropped to the requested region; colour pairs are reduced to luminance. Lists of different length, objects that are not metrics, and parameters that are not dictionaries are rejected with ValueError.",
['inputs','configurations'],'All metric lists, parameter lists, image pairs and regions.',
'There is no test for multi-metric calculation.',
['src/viqa/multiple.py',L],[('_calc, MultipleMetrics.calculate','src/viqa/multiple.py'),('_resize_image',L)],['MultipleMetrics.calculate'])
p('C14','Exports contain exactly the results and change nothing',
"An exported results file contains exactly one row or column per result with its name and its exact value, in order, and in batch mode one row per pair aligned with the pair's number and image names; metrics without a score appear as n/a in the returned dictionary and not in the file. The metadata file lists every metric with its data range and each of its custom parameters. The comparison figure shows every result once with its name and its value to two decimals, and a batch report draws each pair with its own results and region. Exporting changes neither scores nor parameters nor results nor images, and a file name with a wrong extension raises ValueError before anything is written (the plain results export appends .csv instead).",
['inputs','histories'],'All result sets, names, pair lists and file names.',
'There is no test for exporting.',
['src/viqa/utils/export.py','src/viqa/multiple.py'],[('export_results, export_metadata','src/viqa/utils/export.py'),('BatchMetrics.export_results, MultipleMetrics.export_results','src/viqa/multiple.py')],['export_results','export_metadata'])
p('C15','SNR and CNR use exactly the voxels of their regions',
"For every 2D or colour image and every volume with more than three slices along its last axis, every radius and every centre with non-negative coordinates at least the radius away from all borders, SNR is mean/standard deviation of the voxels of the region around the signal centre, and CNR is the difference of the signal and background region means divided by the background standard deviation (0 when that deviation is 0), where the cubic region of radius r covers exactly the coordinates c-r .. c+r-1 per axis, the spherical one the coordinates within Euclidean distance r, and the full region all voxels. For colour images SNR gives the values per Y, U, V channel relative to mean luma, or luminance and per R, G, B channel. Centres closer than the radius to a border raise ValueError, and non-integer centres, non-integer or non-positive radii raise TypeError.",
['inputs','configurations'],'All images, centres, radii, region types, 2D, 3D and colour.',
'Tests only check zero images and that two scores differ; region geometry is never checked.',
[NR+'snr.py',NR+'cnr.py',M],[('signal_to_noise_ratio',NR+'snr.py'),('contrast_to_noise_ratio',NR+'cnr.py'),('_to_cubic, _to_spherical',M)],['SNR.score','CNR.score'])
p('C16','Colour and tensor conversions keep every pixel at its place',
"Converting colour to grey gives at every pixel the fixed luminance combination 0.2125 R + 0.7154 G + 0.0721 B of that same pixel, limited to 255, and converting to YUV multiplies each pixel's (R, G, B) vector by the documented YUV matrix. The tensors handed to the tensor-based metrics hold, for every pixel, channel and slice, exactly the image value at that place as 32-bit (or the image's own) float in batch x channel x row x column order, with one batch entry per slice along the last axis for volumes.",
['inputs'],'All images and shapes.',
'No test inspects converted images; symmetric or random content hides transposed matrices and axes.',
[M],[('_to_grayscale, _rgb_to_yuv, _to_float, _check_chromatic',M)],['metrics on colour images'])
p('C17','Scoring, loading and converting never modify the caller\'s data',
"No score calculation, image loading from arrays, normalisation, cropping, region selection, conversion or multi-metric calculation changes any element, shape or type of an array, list or dictionary passed in by the caller. Repeating a call with the same arguments therefore gives the same result.",
['inputs','histories'],'All public operations, all inputs and parameter objects.',
'Tests generate fresh inputs for each call and never compare them afterwards.',
['src/viqa/fr_metrics/*.py','src/viqa/nr_metrics/*.py','src/viqa/utils/*.py','src/viqa/multiple.py'],[('absence of in-place operations on views of inputs','all metric and utility functions')],['all public functions'])
p('C18','Image arrays compute like plain arrays and describe themselves correctly',
"Any element-wise operation on image arrays, alone or mixed with plain arrays and numbers, gives the same values as on plain arrays, and gives an image array again whenever it yields a new array (an explicitly given output receives the values and is returned). After calculating statistics, mean, median, variance, standard deviation, skewness, kurtosis, minimum, maximum and histogram are those of the image's voxels, and describing the image returns and exports exactly these values.",
['inputs'],'All element-wise operations, shapes, dtypes and operand combinations.',
'No test uses the image array class directly.',
[L],[('ImageArray.__new__, __array_ufunc__, calculate_statistics, describe',L)],['viqa.ImageArray'])
p('C19','Linear fusion is the weighted sum of all scores',
"For every number of metrics with equally many weights, the linear fusion equals the sum over all metrics of score times weight, each score paired with the weight at the same position. Different numbers of metrics and weights raise ValueError.",
['inputs'],'All list lengths, scores and weights.',
'There is no test for fusion.',
['src/viqa/fusion.py'],[('fuse_metrics_linear_combination','src/viqa/fusion.py')],['viqa.fusion.fuse_metrics_linear_combination'])
p('C20','Automatic regions are the largest ones inside the detected foreground',
"For every boolean 2D image, or 3D image with more than three voxels along its last axis, that contains both values and every number of iterations of at least one, the search for the largest region returns a centre at which the distance to the nearest voxel outside the cleaned foreground (dilated that many times and eroded once more often, with the axis cross as neighbourhood) is largest, the integer part of that distance as radius, and the requested region: the cube or the sphere of that centre and radius, the cleaned foreground eroded further, the original foreground, or the cleaned foreground. Every returned region lies inside the image. An image with a single value, of another type or of another rank raises ValueError. The detected foreground consists of exactly the voxels above the lower and at most at the upper percentile (of the luminance, for colour images). SNR and CNR with automatic centres and a cubic or spherical region equal the scores obtained when the detected centre and radius are given explicitly; for CNR the signal comes from the foreground above the 90th percentile, the background from the voxels up to it, and the smaller of the two radii serves both. No detectable foreground raises ValueError, a detected radius of zero TypeError.",
['inputs','configurations'],'All images, all iteration counts, all region types, all percentile bounds.',
'Only two phantoms are ever searched by the tests; centre, radius and region depend on the geometry of the foreground, ties and borders.',
[M,NR+'snr.py',NR+'cnr.py'],[('find_largest_region, _get_binary, _to_cubic, _to_spherical',M),('automatic branch of signal_to_noise_ratio',NR+'snr.py'),('automatic branch of contrast_to_noise_ratio',NR+'cnr.py')],['viqa.utils.find_largest_region','SNR.score','CNR.score'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
