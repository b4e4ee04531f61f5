"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/props.py)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parents[1]
CAM, ORT, PAN, PIO, FAC, FIT, COM, CLI, EXI = (
    f'orthority/{n}.py'
    for n in ('camera', 'ortho', 'pan_sharp', 'param_io', 'factory', 'fit', 'common', 'cli', 'exif')
)
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level='exploration'):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            rec=dict(
                id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=files,
                    mechanism=[dict(name=n, where=w) for n, w in mech],
                    observe_at=observe,
                    hook_needed=None,
                ),
            ),
            technique=technique, note=note, level=level,
        )
    )


prop(
    'C01', 'Frame camera pixel-to-world and world-to-pixel are inverse at the given z',
    'For every frame camera (pinhole, Brown, OpenCV, fisheye; with or without distortion included, any alpha), '
    'projecting any image pixel to world coordinates at a given z and back to the image returns the same pixel, and the '
    'returned world points have exactly the requested z and lie on the line of sight of that pixel. '
    'This holds for one pixel and many z values, many pixels and one z value, or pairwise, with each output column '
    'belonging to its own input column.',
    ['inputs', 'configurations'],
    'all valid interior and exterior parameters with the image below the horizon, all pixel coordinates in the image '
    '(fractional and boundary), all z below the camera, all broadcasting shapes and alphas',
    'Tests sample one camera position, landscape image, and one set of distortion coefficients; the property is over all parameter values.',
    [CAM], [('FrameCamera.world_to_pixel / pixel_to_world_z', CAM), ('_camera_to_pixel / _pixel_to_camera overrides', CAM)],
    ['create_camera', 'FrameCamera.world_to_pixel', 'FrameCamera.pixel_to_world_z'],
    'runtime monitor: round-trip oracle on hooked projections under randomised cameras',
    'Every executed projection is checked against its inverse and the camera ray; assumes distortion is invertible over the image.',
)
prop(
    'C02', 'Frame camera projection implements the documented camera models',
    'World-to-pixel projection of a frame camera equals the published equations of its model for its parameters: collinearity with '
    '(omega, phi, kappa) in the PATB convention, the OpenCV / Brown-Conrady / fisheye distortion polynomials, focal lengths in sensor units or '
    'normalised by the largest image dimension, and principal point offsets normalised by the largest image dimension. '
    'With distortion excluded the projection is a pinhole projection whose image, for alpha 1, contains every source pixel and, for alpha 0, contains only valid source pixels.',
    ['inputs', 'configurations'],
    'all camera types, image shapes (landscape, portrait, square), focal length and sensor conventions, distortion coefficients, orientations and world points in front of the camera',
    'Tests compare with OpenCV for fixed parameters and check consistency rather than the absolute model, over one landscape image size.',
    [CAM, PIO], [('FrameCamera._get_intrinsic / _get_extrinsic', CAM), ('OpenCVCamera/BrownCamera/FisheyeCamera._camera_to_pixel', CAM), ('_get_undistort_intrinsic', CAM)],
    ['create_camera', 'FrameCamera.world_to_pixel', 'FrameCamera.pixel_boundary'],
    'runtime monitor: differential oracle against an independent reference model',
    'Each observed projection is compared with an independently written reference to 1e-6 px; the reference equations are trusted.',
)
prop(
    'C03', 'RPC camera projections follow the RPC00B model in the requested CRS',
    'World-to-pixel projection of an RPC camera equals the RPC00B rational polynomial at the world point expressed in WGS84 geographic coordinates, with integer pixel coordinates at pixel centres, '
    'and pixel-to-world at a given z is its inverse, in the camera CRS, at that z. '
    'Invalid (NaN) coordinates give NaN for those points only, and a camera CRS without ellipsoidal height in metres is refused.',
    ['inputs', 'configurations'],
    'all RPC parameter sets, pixel coordinates, z values and broadcasting shapes, NaN patterns, and geographic / projected camera CRSs',
    'Tests use one satellite image and one CRS, with a few pixels.',
    [CAM], [('RpcCamera.world_to_pixel', CAM), ('RpcCamera.pixel_to_world_z', CAM), ('RpcCamera._validate_crs', CAM)],
    ['RpcCamera', 'RpcCamera.world_to_pixel', 'RpcCamera.pixel_to_world_z'],
    'runtime monitor: differential oracle (independent RPC00B evaluation) plus inverse oracle',
    'Perturbed real RPCs and synthetic RPCs; the GDAL inverse is accepted to its documented 0.1 px iteration threshold.',
)
prop(
    'C04', 'Cameras and factories answer from current parameters only, never from history',
    'What a camera returns depends only on its parameters and the call arguments, never on earlier calls: after any sequence of projections, reads, remaps, exterior updates and '
    'distort / alpha changes it behaves identically to a newly created camera with the same parameters. '
    'A camera obtained from a camera factory for a file has exactly the interior, exterior (or refined RPC) parameters recorded for that file, whatever was requested, updated or refined before. '
    'Arrays and dictionaries passed in by the caller are never modified.',
    ['histories'],
    'all sequences of public operations on a camera or camera factory, with any mix of cameras, files and parameter changes',
    'Tests exercise each setter or getter once on a new object; cached state (undistort maps, camera dictionaries) is only reachable by longer histories.',
    [CAM, FAC], [('_undistort_maps cache and alpha setter', CAM), ('FrameCameras.get / RpcCameras.get camera caches', FAC), ('RpcCameras.refine cache invalidation', FAC)],
    ['FrameCamera', 'FrameCameras.get', 'RpcCameras.get', 'RpcCameras.refine'],
    'runtime monitor: history-vs-fresh-object oracle on random operation sequences, argument checksums',
    'Each step of each random history is compared with a newly made twin object; sequences up to 12 (quick) or 30 (thorough) operations.',
)
prop(
    'C05', 'Image boundaries project to the true footprint at a height or on a DEM surface',
    'The pixel boundary of a camera traces the border pixel centres of the image (or of the valid area of the undistorted image) in order, including its corners, and the world boundary is the projection of those pixels '
    'at the given height. Given a DEM array, each world boundary point is the first intersection of the pixel ray with the DEM surface seen from the camera, to within one DEM pixel step, and points whose ray misses the DEM are '
    'placed at the DEM minimum. A field of view that reaches the horizon, or a DEM wholly above the camera, raises an error rather than giving a boundary.',
    ['inputs', 'configurations'],
    'all cameras, orientations (including oblique and above-horizon), numbers of boundary points, DEM surfaces (planes, ridges, NaN holes, partial coverage, terrain above the camera) and transforms',
    'Tests check a few flat or constant surfaces and one horizon orientation.',
    [CAM], [('Camera.pixel_boundary', CAM), ('FrameCamera.world_boundary', CAM), ('Camera._pixel_to_world_surf', CAM)],
    ['Camera.pixel_boundary', 'Camera.world_boundary'],
    'runtime monitor: ray-marching surface oracle on observed boundaries',
    'Analytic surfaces evaluated independently on a fine ray; heights clipped to the camera as documented.',
)
prop(
    'C06', 'Reading, undistorting and remapping place every source pixel value correctly',
    'Reading an image with a camera returns its bands unchanged when distortion is included, and otherwise an undistorted image in which each pixel holds the source value at the distorted position of that pixel, or nodata where there is none. '
    'Remapping an image to world coordinates gives, for each coordinate, the image value interpolated at the projected pixel position for every band, and nodata (and a set mask) exactly where the projection falls outside the image or the coordinate is NaN. '
    'Requested band order, data type, nodata value and interpolation method are honoured.',
    ['inputs', 'configurations'],
    'all camera types, distort / alpha settings, band index selections, data types, nodata values, interpolation methods, coordinate grids with NaNs and points outside the image',
    'Tests compare a remap with itself or with a similar computation for one image and a few settings.',
    [CAM], [('Camera.read', CAM), ('Camera.remap / FrameCamera.remap', CAM), ('FrameCamera._undistort_im', CAM)],
    ['Camera.read', 'Camera.remap'],
    'runtime monitor: coordinate-encoding images decoded against an independent projection',
    'Images encode their own pixel coordinates so each remapped value names its source position; tolerance covers the 1/32 px coordinate quantisation of OpenCV.',
)
prop(
    'C07', 'Every valid ortho pixel shows the source image at its projected ground position',
    'For every valid pixel of an ortho image, the value of each band equals the same source band interpolated where the camera projects the ground point at the centre of that pixel with DEM height. '
    'This holds for every camera model, DEM, ortho resolution, interpolation method, data type, distortion setting and image size, in every tile of the ortho.',
    ['inputs', 'configurations'],
    'all frame and RPC cameras, terrain surfaces, ortho resolutions (square or not, coarser or finer than the DEM), ortho sizes over one or several tiles, interpolation methods, dtypes, band counts and distort / alpha settings',
    'Tests compare overlapping orthos or options against each other on one small flat-ish scene; an error common to both is not seen.',
    [ORT, CAM], [('Ortho._remap_tile grid offsets', ORT), ('Ortho._reproject_dem / _mask_dem', ORT), ('Camera.remap', CAM)],
    ['Ortho.process output dataset'],
    'runtime monitor: coordinate-encoding source images decoded from output pixels against a reference projection',
    'Each decoded valid output pixel is one oracle evaluation; analytic terrain gives exact heights. Tolerances: 0.06-0.2 px (1 px nearest).',
)
prop(
    'C08', 'Ortho output does not depend on thread schedule, tiling or band batching',
    'For given inputs the pixel values, mask and geo-referencing of an ortho are identical however its tiles are ordered, delayed or spread over worker threads, whatever the tile size, and whether bands are processed together or one by one. '
    'Every output pixel of every band (and of the mask, if one is written) is written exactly once, and no two threads use the output dataset at the same time.',
    ['schedules', 'configurations'],
    'all interleavings of concurrent tile workers, worker counts, tile shapes (tiled, striped, partial edge tiles), per-band settings and band counts',
    'Tests run the default thread pool once with tiles finishing in nearly submission order, mostly with a single tile.',
    [ORT, COM], [('Ortho._remap thread pool and _write_lock', ORT), ('common.block_windows', COM)],
    ['Ortho.process', 'rasterio dataset write calls'],
    'runtime monitor: injected delays, exactly-once write-event log, cross-schedule differential',
    'Dataset writes are hooked at the rasterio boundary; schedules perturbed by seeded delays, worker counts 1-8 and switch intervals; distinct completion orders are counted.',
)
prop(
    'C09', 'The ortho covers exactly the part of the scene that image and DEM both cover',
    'Every ground point that is imaged and has a valid DEM height lies inside the ortho extent and is a valid ortho pixel, and every pixel that is outside the image footprint or has no DEM height is masked, except for a thin band (about two pixels) along those borders. '
    'The ortho grid has the requested resolution and CRS, or by default square pixels that give about as many valid ortho pixels as source pixels. '
    'A DEM that covers only part of the footprint gives a warning, and one that covers none of it gives an error and no silent empty ortho.',
    ['inputs', 'configurations'],
    'all cameras, DEM extents (full, partial, disjoint, with nodata holes), terrain relief, resolutions and distort settings',
    'Tests check bounds against the DEM of one scene and one partial-coverage case.',
    [ORT, CAM], [('Ortho._get_init_dem window', ORT), ('Ortho._mask_dem', ORT), ('Ortho._get_gsd', ORT)],
    ['Ortho.process output dataset', 'warnings', 'errors'],
    'runtime monitor: ground-point sampling oracle over observed output masks',
    'Footprint and visibility are recomputed per ground point from the reference camera and analytic terrain; a border band is excluded.',
)
prop(
    'C10', 'DEM coordinates, vertical datum, units, band and nodata are honoured',
    'Supplying the same terrain in a different horizontal CRS, vertical datum (e.g. geoid instead of ellipsoid), height unit, data type, band, or pixel size than that of the world coordinates yields the same ortho geometry. '
    'The selected DEM band is the one used, DEM nodata (nodata value, mask or NaN) is never treated as height, and a DEM band that does not exist is an error.',
    ['inputs', 'configurations'],
    'all combinations of world / DEM horizontal CRS, vertical CRS and units, DEM dtype, band index, nodata representation, resolution and DEM interpolation',
    'Tests compare a handful of CRS pairs on one scene.',
    [ORT], [('Ortho._get_init_dem', ORT), ('Ortho._reproject_dem vertical shift', ORT)],
    ['Ortho.process output dataset'],
    'runtime monitor: decoded ortho geometry against PROJ-transformed analytic terrain',
    'Height errors are amplified by oblique cameras so a vertical offset of ~1 m is visible; PROJ transforms are trusted.',
)
prop(
    'C11', 'Output images have the documented format, dtype, nodata and mask',
    'Ortho and pan-sharpened images have the requested driver, compression, data type, tiling and creation options (or the documented defaults for them), the source band count and colour interpretation, and internal overviews exactly when requested and useful. '
    'Invalid pixels are marked by an internal mask or by the documented nodata value for the data type, according to the write-mask setting and its default, and the two never contradict each other. '
    'Unsupported data type or compression combinations are refused with an error.',
    ['configurations'],
    'all combinations of driver, dtype, compression, write-mask, overviews, creation options, source dtype, band count and colour interpretation',
    'Tests cover a few hand-picked combinations per option rather than their product.',
    [COM, ORT, PAN], [('common.create_profile', COM), ('common.build_overviews', COM), ('mask writing', ORT)],
    ['Ortho.process / PanSharpen.process output dataset metadata and masks'],
    'runtime monitor: declarative output-format specification evaluated on written files',
    'The specification is a table written from the documentation; GDAL metadata read back is trusted.',
)
prop(
    'C12', 'Existing files and inputs are never altered unless overwriting was requested',
    'Without the overwrite option, an existing output file (image or parameter file) is left byte-for-byte intact and the operation fails with a file-exists error; with it, the result is the same as writing to a new path. '
    'Source images, DEMs and parameter files are never modified, and datasets or file objects passed in open stay open and usable. '
    'No files other than the requested outputs are created.',
    ['inputs', 'histories', 'configurations'],
    'all output kinds (ortho, pan-sharpen, interior, exterior, RPC, GCP, exported parameters), target types (path, URI, open file), overwrite settings, and previous contents of the target',
    'Tests check the overwrite flag once per writer on a new file and do not compare contents, inputs or stray files.',
    [COM, ORT, PAN, PIO, FAC], [('common.OpenRaster / common.Open', COM), ('write_* functions', PIO)],
    ['file system snapshot before / after', 'raised exceptions'],
    'runtime monitor: file-system snapshot differencing around each operation',
    'All files in the scratch directory are hashed before and after each operation.',
)
prop(
    'C13', 'Pan-sharpened values equal the Gram-Schmidt method on the valid pixels',
    'Each valid pan-sharpened value equals the Gram-Schmidt component substitution computed from the statistics of all pixels valid in both images: upsampled multispectral value plus band gain times the difference of normalised pan and simulated pan. '
    'User weights are used as given up to normalisation, estimated weights are the non-negative least squares estimate of pan from the multispectral bands, and the band selection and order follow the indexes. '
    'Integer output is rounded and clipped to the data type range, never wrapped.',
    ['inputs', 'configurations'],
    'all pan / multispectral images, scale ratios, offsets, masks, band selections (including repeats and alpha bands), weights, interpolation methods and dtypes',
    'Tests check the statistics of one image pair and parameter shapes, not pixel values against the method.',
    [PAN, COM], [('PanSharpen._get_stats / _get_params', PAN), ('PanSharpen._process_tile_array', PAN), ('common.convert_array_dtype', COM)],
    ['PanSharpen.process output dataset'],
    'runtime monitor: differential oracle, closed-form component substitution on whole arrays',
    'Reference uses whole-image float64 statistics and GDAL resampling for the up / downsampled inputs.',
)
prop(
    'C14', 'Pan-sharpening does not depend on thread schedule or tiling',
    'For given inputs the pan-sharpened values and mask are the same (up to floating point rounding of the statistics) however the statistics and sharpening tiles are ordered, delayed or spread over threads, and whatever the output tile size. '
    'Every output pixel and mask pixel is written exactly once, every pixel valid in both images contributes to the statistics exactly once, and no dataset is used by two threads at the same time.',
    ['schedules', 'configurations'],
    'all interleavings of tile workers in both steps, worker counts, output tile shapes, and images spanning several statistics tiles',
    'Tests use images that fit in a single statistics tile with undisturbed scheduling.',
    [PAN], [('PanSharpen._get_stats aggregation and locks', PAN), ('PanSharpen.process thread pool', PAN)],
    ['PanSharpen.process', 'rasterio read / write calls'],
    'runtime monitor: injected delays, exactly-once read/write event log, cross-schedule differential',
    'Images over 1024 px exercise tile aggregation; reads and writes are hooked at the rasterio boundary.',
)
prop(
    'C15', 'Pan-sharpened image lies on the pan grid over the shared valid area',
    'The pan-sharpened image has the pan CRS and pixel grid, and its bounds are the intersection of the pan and multispectral bounds (to within a pan pixel); a pixel is valid exactly when pan and all selected multispectral bands are valid there, up to the interpolation kernel at mask borders. '
    'Un-georeferenced images are taken to have matching bounds. Images that do not overlap, a pan image coarser than the multispectral, and invalid indexes or weights are errors.',
    ['inputs', 'configurations'],
    'all relative extents and offsets (nested, partial, disjoint), differing CRSs, georeferenced or not, nodata and mask patterns',
    'Tests use a few aligned image pairs derived from one scene.',
    [PAN], [('PanSharpen._get_vrt_profiles', PAN), ('mask combination in _process_tile', PAN)],
    ['PanSharpen.process output dataset', 'errors'],
    'runtime monitor: geometric and mask specification evaluated on written files',
    'Grid alignment and bounds recomputed independently from the dataset transforms.',
)
prop(
    'C16', 'Parameters written to Orthority files read back unchanged',
    'Interior, exterior, RPC and GCP parameters written to Orthority files and read again are equal to the originals in names, order, values and types, for any number of cameras and images. '
    'Parameters exported from any supported input give cameras that project identically to the original cameras, and the written GeoJSON position of each image or GCP is its WGS84 location.',
    ['inputs'],
    'all parameter dictionaries obtainable from the supported formats (camera IDs and file names with special characters, extreme values, optional parameters present or absent, any CRS)',
    'Tests round-trip one fixture per format.',
    [PIO, FAC], [('write_int_param / read_oty_int_param', PIO), ('write_ext_param / OtyReader', PIO), ('write_rpc_param / write_gcps', PIO), ('Cameras.write_param', FAC)],
    ['param_io writers and readers', 'FrameCameras.write_param', 'RpcCameras.write_param'],
    'runtime monitor: round-trip equality oracle on random parameter sets',
    'Exact float equality (text formats carry repr precision).',
)
prop(
    'C17', 'CSV exterior parameters are read with the right fields, units and CRS',
    'For any CSV of supported layout (delimiter, header or legacy order, column order, extra columns, quoting, degrees or radians) each row gives the position and orientation of that row for that image: x, y, z or geographic positions projected to the world CRS, '
    'and omega, phi, kappa or roll, pitch, yaw converted to an equivalent orientation. '
    'The world CRS is the one given, else that of a .prj file beside the CSV, else (geographic with roll, pitch, yaw) the UTM zone of the mean position; where it is needed and unknown an error is raised.',
    ['inputs', 'configurations'],
    'all combinations of position and orientation formats, delimiters, header cases and orders, angle units, hemispheres, CRSs and numbers of rows',
    'Tests read a fixture per format, all of the same place and orientation.',
    [PIO, COM], [('CsvReader', PIO), ('_rpy_to_opk', PIO), ('utm_crs_from_latlon', COM)],
    ['CsvReader.read_ext_param', 'CsvReader.crs'],
    'runtime monitor: generated-file oracle, orientation compared as camera axes built independently',
    'Camera axes are computed from roll, pitch, yaw by an independent route (grid north from PROJ).',
)
prop(
    'C18', 'OpenSfM and EXIF / XMP inputs convert to equivalent cameras',
    'Cameras built from an OpenSfM reconstruction project world points to the pixels the OpenSfM equations give for the recorded camera, rotation, translation and reference position. '
    'EXIF / XMP tags give the tagged position, gimbal orientation, and interior parameters (dewarp data, focal length with sensor size, or 35 mm equivalent, in that order of preference), in the UTM zone of the positions unless a CRS is given. '
    'Missing required tags are an error.',
    ['inputs'],
    'all supported projection types and parameters, rotations, references, and combinations of present / absent EXIF and XMP tags with their units, signs and references',
    'Tests use one ODM dataset and a few drone images.',
    [PIO, EXI, FAC], [('OsfmReader / _cv_ext_to_oty_ext', PIO), ('Exif', EXI), ('_read_exif_int_param / _read_exif_ext_param', PIO)],
    ['OsfmReader', 'ExifReader', 'read_exif_int_param', 'FrameCameras.from_images'],
    'runtime monitor: generated reconstruction / tagged images against independent projection equations',
    'Tagged GeoTIFFs are generated; OpenSfM equations re-implemented.',
)
prop(
    'C19', 'Malformed parameter files give a parameter error, never garbage or a crash',
    'Reading an interior, exterior, RPC or GCP parameter file that is not valid YAML / JSON / CSV, or whose structure lacks required items or has items of the wrong kind, raises an Orthority parameter (or CRS) error naming the file. '
    'It never raises an unrelated exception and never returns parameters.',
    ['inputs'],
    'all structural corruptions of valid files (truncation, missing keys, wrong container or scalar kinds, wrong list lengths, unknown parameters, unsupported types, binary garbage)',
    'Tests check a few hand-written invalid files per reader.',
    [PIO, COM], [('common.validate_collection', COM), ('reader validation', PIO)],
    ['param_io readers', 'FrameCameras', 'RpcCameras'],
    'runtime monitor: mutation fuzzing of valid files with an exception-contract oracle',
    'Mutations are structural, from a grammar per format; the expected outcome is known for each.',
)
prop(
    'C20', 'RPC refinement is the least squares bias compensation of the GCPs',
    'Refining an RPC model with GCPs gives a model whose projection is the original projection followed by the per-axis shift (or shift and scale) in image space that minimises the squared GCP residuals, and leaves other parameters, the input model and the GCPs unchanged. '
    'Refining never increases the total squared residual, is exact for GCPs produced by such a bias, and refuses too few GCPs.',
    ['inputs', 'histories'],
    'all RPC models, GCP sets (any number, noise and layout), both methods, and repeated refinement',
    'Tests use one model with a few GCPs.',
    [FIT, FAC], [('refine_rpc', FIT), ('RpcCameras.refine', FAC)],
    ['refine_rpc', 'RpcCameras.refine', 'RpcCamera.world_to_pixel'],
    'runtime monitor: optimality oracle (normal equations and perturbation) on observed projections',
    'Residuals evaluated with the independent RPC00B reference.',
)
prop(
    'C21', 'Fitted exterior parameters recover the camera pose from GCPs',
    'Fitting exterior parameters to six or more well spread GCPs that were generated by a camera returns, for each image, a pose whose camera reprojects all GCPs to their pixel positions and sees the scene from above as the generating camera does, for every frame camera type, interior parameter convention and world CRS. '
    'Each image is fitted with its own GCPs, the inputs are not modified, and too few GCPs are refused.',
    ['inputs', 'configurations'],
    'all frame camera types and interior parameters, poses, GCP layouts (six or more, flat or with relief), numbers of images and CRSs',
    'Tests fit one camera pose.',
    [FIT, PIO], [('fit_frame_exterior', FIT), ('_cv_ext_to_oty_ext', PIO)],
    ['fit_frame_exterior', 'FrameCamera.world_to_pixel'],
    'runtime monitor: reprojection oracle with the independent reference camera',
    'float32 coordinates in the fit limit agreement to about 0.01 px.',
)
prop(
    'C22', 'Multi-file readers return each file\'s own data in input order under any schedule',
    'Reading RPC, GCP or EXIF parameters from many images returns exactly one entry per file, holding that file\'s own values, in the order of the files, however the concurrent reads are scheduled. '
    'If any file is missing, lacks the tags or cannot be read, an error naming it is raised and no partial result is returned; the call always terminates.',
    ['schedules', 'fault_sequences'],
    'all numbers of files, input kinds (paths, URIs, open datasets), read completion orders and failure positions',
    'Tests read one or two files without disturbing the schedule.',
    [PIO], [('ThreadPoolExecutor loops in read_im_rpc_param / read_im_gcps / ExifReader', PIO)],
    ['read_im_rpc_param', 'read_im_gcps', 'ExifReader'],
    'runtime monitor: injected read delays and faults, per-file identity oracle',
    'Completion order is permuted by seeded delays at the rasterio open boundary; distinct orders counted.',
)
prop(
    'C23', 'The command line gives the same results as the API, per image and per batch',
    'Each oty sub-command, and the legacy simple-ortho command, writes for each source image the ortho (or pan-sharpened image or exported parameter files) that the API gives for the same inputs and options, every option having its documented effect. '
    'Processing many images in one command gives the same files as processing them one at a time. '
    'Missing inputs, malformed or unsuitable parameters and invalid options end with a usage message and non-zero exit, not a traceback.',
    ['inputs', 'configurations', 'histories'],
    'all sub-commands (frame, exif, odm, rpc, sharpen) and simple-ortho, option combinations, batches of images with differing cameras, CRSs and sizes, and invalid inputs',
    'Tests check that each option is accepted or changes something on a single image.',
    [CLI], [('_ortho batch loop', CLI), ('sub-command functions and option callbacks', CLI)],
    ['oty CLI', 'written files'],
    'runtime monitor: differential oracle between CLI runs, API runs and single-image runs',
    'CLI invoked in-process with random option sets; output datasets compared for equality.',
)
prop(
    'C24', 'Failures while reading or writing are reported, never silently ignored',
    'If reading a source, DEM, pan or multispectral block, or writing an output block, mask, or overview, or storing the output file on its file system, fails at any point, orthorectification or pan-sharpening raises an error, in bounded time, instead of finishing as if successful. '
    'After such a failure the inputs are intact and usable, and repeating the operation with overwrite, without the fault, gives the normal result.',
    ['fault_sequences', 'crash_points', 'schedules'],
    'all single failure points over the sequence of dataset reads, writes, mask writes and overview builds of a run, in any worker thread',
    'No test injects a failure into processing.',
    [ORT, PAN, COM], [('future.result() error propagation', ORT), ('future.result() error propagation', PAN)],
    ['Ortho.process', 'PanSharpen.process', 'rasterio calls'],
    'runtime monitor: fault injection enumerated over observed dataset calls, watchdog, retry differential',
    'Faults are raised from the hooked rasterio / OpenCV call at each observed call index (sampled when there are many).',
    level='fault_enumeration',
)
NOT_APPLICABLE = []


def main():
    (V / 'properties.jsonl').write_text(''.join(json.dumps(p['rec'], ensure_ascii=False) + '\n' for p in P))
    checks = []
    for p in P:
        i = p['rec']['id']
        if not (V / 'checks' / f'{i.lower()}.py').exists():
            continue
        cmd = f'/opt/venv/bin/python -B run_check.py {i}'
        checks.append(
            dict(
                property=i, quick_cmd=cmd + ' --tier quick', thorough_cmd=cmd + ' --tier thorough',
                evidence_file=f'evidence/{i}.json', technique=p['technique'], level=p['level'], level_note=p['note'],
            )
        )
    na = list(NOT_APPLICABLE)
    have = {c['property'] for c in checks}
    na += [dict(property=p['rec']['id'], reason='check not built yet') for p in P if p['rec']['id'] not in have]
    m = dict(
        version=1,
        setup_cmd='/opt/venv/bin/python -B tools/selfcheck.py',
        checks=checks,
        not_applicable=na,
        notes='Pure Python checks run from /verif against the /repo working tree (no build step; orthority is imported from /repo). No hooks are added to /repo: instrumentation is attached at run time to third-party (rasterio, cv2, concurrent.futures) boundaries.',
    )
    (V / 'MANIFEST.json').write_text(json.dumps(m, indent=1, ensure_ascii=False) + '\n')


if __name__ == '__main__':
    main()
