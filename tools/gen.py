"""writes properties.jsonl and MANIFEST.json from one list (python3 tools/gen.py)"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = 'resippy/image_objects/earth_overhead/'
C = E + 'earth_overhead_point_calculators/'
U = 'resippy/utils/'
I = U + 'image_utils/'
PH = 'resippy/photogrammetry/'
S = 'resippy/spectral/'
L = []


def p(pid, title, statement, text, why, files, mech, over=('inputs',), na=None):
    L.append(dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), na=na))


p('P01', 'Attitude angles and rotation matrices are faithful to each other',
  'The rotation matrix built from roll, pitch and yaw equals the product of the three elementary axis rotations in the requested order and is a proper rotation (orthonormal, determinant one). Recovering the angles from a matrix built in the standard order returns the original angles, and the solved boresight offset composed with the rough orientation gives the ideal orientation.',
  'every triple of angles and each of the six rotation orders; recovery for every pitch strictly between -90 and 90 degrees; every invertible rough orientation',
  'The tests check a handful of fixed angles and one order; sign or term errors that vanish at those angles go unseen.',
  [U + 'photogrammetry_utils.py'], [('matrix construction', U + 'photogrammetry_utils.py create_M_matrix'), ('angle recovery', U + 'photogrammetry_utils.py solve_for_omega_phi_kappa'), ('boresight offset', U + 'photogrammetry_utils.py solve_for_boresight_angle_offsets')])
p('P02', 'A camera on a fixture has the composed position and orientation',
  "A camera's absolute orientation is its boresight rotation applied after the fixture's orientation. Its absolute position is the fixture position plus the mounting offset rotated out of the fixture frame, so the offset seen from the fixture frame is the mounting offset, with every axis and angle converted from its own unit.",
  'every fixture pose, mounting offset, boresight angles, rotation order and unit choice',
  'The tests fix single-axis poses (and three of them fail to run); combined axes, other units and orders are not reached.',
  [C + 'fixtured_camera.py'], [('composition', C + 'fixtured_camera.py')], ('inputs', 'configurations'))
p('P03', 'Frame cameras image points by the collinearity equations',
  'Every world point on the ray that leaves the camera centre through an image-plane position is imaged to exactly that position, whatever its distance, for any pose, focal length and combination of units. Arrays of points are imaged elementwise, keeping their shape.',
  'every camera pose, focal length, unit per parameter and world point off the lens plane',
  'The tests compare a few hand-picked points of a near-nadir camera.',
  [C + 'pinhole_camera.py'], [('projection', C + 'pinhole_camera.py world_to_image_plane'), ('unit handling', C + 'pinhole_camera.py init_pinhole_from_coeffs')], ('inputs', 'configurations'))
p('P04', 'The ideal pinhole pixel model maps ground to the right pixel',
  'A ground point on the ray through a focal-plane position maps to the pixel whose offset from the array centre is that position divided by the pixel pitch, mirrored along an axis exactly when that axis is flipped, in every supported unit. A camera given in geographic coordinates is placed in the UTM zone of the sensor, and the native projection and approximate centre agree with the sensor position.',
  'every pose, array size, pixel pitch, focal length, flip, unit choice and construction path',
  'Tests use one camera with equal pitches and square arrays, where swapped axes or halves are invisible.',
  [C + 'ideal_pinhole_fpa_local_utm_point_calc.py'], [('pixel model', C + 'ideal_pinhole_fpa_local_utm_point_calc.py')], ('inputs', 'configurations'))
p('P05', 'RPC models evaluate the standard rational cubic model',
  'Pixel coordinates computed from rational polynomial coefficients equal the standard RPC00B ratio of cubic polynomials in the normalised latitude, longitude and height, rescaled by the sample and line scale and offset and shifted by half a pixel. This holds equally for coefficients passed directly or read from file metadata, and for scalar, one- and two-dimensional inputs.',
  'every value of the 80 coefficients, the ten scales and offsets, and every ground point',
  'No test exercises a polynomial with all twenty terms; one wrong term changes results only for off-centre points.',
  [C + 'rpc_point_calc.py'], [('polynomial', C + 'rpc_point_calc.py compute_p'), ('normalisation', C + 'rpc_point_calc.py'), ('reader', C + 'rpc_point_calc.py init_from_file')])
p('P06', 'Pix4D cameras reproduce the Pix4D camera model and its files',
  "Ground points map to pixels by the documented Pix4D model: rotate the offset from the camera position, perspective divide, apply the radial and tangential distortion terms when distortion is on, then scale by the focal length in pixels and shift by the principal point; an axis that is not reversed is mirrored about the principal point. Every number of the exported parameter files reaches the entry of the image it belongs to, however the files end.",
  'every calibrated camera (rotation, position, intrinsics, distortion) and ground point; every numeric content of the export files',
  'There is no test of the Pix4D model or its readers.',
  [C + 'pix4d_point_calc.py', U + 'pix4d_utils.py'], [('camera model', C + 'pix4d_point_calc.py'), ('export readers', U + 'pix4d_utils.py')])
p('P07', 'Calibrated (OpenCV/Brown) cameras image points by the Brown model',
  'Ground points map to pixels by the Brown camera model: coordinates in the frame of the mounted camera are divided by depth, distorted with the given radial (k1, k2, k3) and tangential (p1, p2) coefficients, and scaled and shifted by the focal lengths and principal point. Pose, mounting offsets and intrinsics each act independently of the order in which they are supplied.',
  'every intrinsic, distortion coefficient, pose, mounting offset and ground point in front of the camera, and both orders of supplying pose and offsets',
  'There is no test of this camera model.',
  [C + 'opencv_point_calc.py', C + 'fixtured_camera.py'], [('Brown model', C + 'opencv_point_calc.py'), ('mounting', C + 'fixtured_camera.py')])
p('P08', 'Geotransform rasters map pixels and ground coordinates inversely',
  "For any invertible geotransform, the ground position of a pixel follows the geotransform and mapping it back returns the pixel, for scalars and arrays, ignoring altitude. The native extent of a north-up raster is the rectangle of its four outer corners, and the geotransform, size and projection of an opened file are the file's own.",
  'every invertible affine geotransform, raster size and pixel or ground coordinate',
  'Tests only use north-up geotransforms and single points.',
  [C + 'geotiff_point_calc.py'], [('affine maps', C + 'geotiff_point_calc.py'), ('extent', C + 'geotiff_point_calc.py get_world_extent_native')])
p('P09', 'Per-pixel geolocation images locate pixels from their coordinate arrays',
  'The ground position of a pixel of a per-pixel geolocated image is the stored longitude and latitude at that row and column, and its stored altitude is the one supplied, whether a number or an array. A ground position is located at the inverse-distance-weighted mean row and column of its six nearest pixels, and a stored pixel position is located at that pixel.',
  'every coordinate array of the bounded sizes, altitude, and query position',
  'There is no test of this class.',
  [C + 'igm_point_calc.py', E + 'igm/igm_image.py'], [('lookup and interpolation', C + 'igm_point_calc.py'), ('image wrapper', E + 'igm/igm_image.py')])
p('P10', 'Mapping coordinates is elementwise, shape preserving and projection aware',
  "For any sensor, mapping ground to pixel coordinates treats every point independently, returns results in the shape of the input (scalar, 1-D or 2-D), applies one altitude to all points when given a number and zero when none, and passes on the requested band. Coordinates given or requested in another projection are first converted to, or afterwards converted from, the sensor's native projection and are untouched when the projections agree.",
  'every input shape within bounds, coordinate, altitude form, band and pair of projections',
  'Tests use only native-projection scalars and small arrays of a single sensor type.',
  [C + 'abstract_earth_overhead_point_calc.py'], [('forward mapping', C + 'abstract_earth_overhead_point_calc.py lon_lat_alt_to_pixel_x_y'), ('inverse mapping', C + 'abstract_earth_overhead_point_calc.py pixel_x_y_alt_to_lon_lat')], ('inputs', 'configurations'))
p('P11', 'The iterative ground solver converges to points that image back to the pixel',
  'For a sensor that only knows how to map ground to pixels, the solved ground position maps back to the requested pixel within the requested pixel error, at the requested altitude and band. This includes sensors rotated so that pixel x does not depend on longitude, pixel arrays of one and two dimensions, and outputs in another projection.',
  'every invertible affine sensor (any rotation and shear), pixel, altitude and projection within bounds',
  'The tests invert one near-north-aligned camera at a few pixels.',
  [C + 'abstract_earth_overhead_point_calc.py'], [('Newton-like solver', C + 'abstract_earth_overhead_point_calc.py _pixel_x_y_alt_to_lon_lat_native_solver')])
p('P12', 'Casting pixel rays on an elevation model lands on the terrain',
  "Casting a pixel's ray on an elevation model returns a ground position and altitude that lie on that ray and on the (sampled) surface where the ray first meets it, in the requested projection and shape. It works for flat elevation models and for vertical rays.",
  'every ray direction, piecewise-linear terrain within bounds, sampling distance and projection',
  'There is no test of ray casting.',
  [C + 'abstract_earth_overhead_point_calc.py'], [('ray caster', C + 'abstract_earth_overhead_point_calc.py _pixel_x_y_to_lon_lat_ray_caster_native')])
p('P13', 'Multi-band sensors use the model of the requested band',
  "A sensor made of one camera per band answers every mapping, forward or inverse, with the camera of the requested band, and lists, replaces and appends cameras at the positions asked for. Setting the sensor's projection or distortion model reaches every band, and multi-camera images keep band files and cameras in band order and are not treated as co-registered.",
  'every number of bands within bounds, band index, ground point and band file naming',
  'There is no test of multi-band sensors.',
  [C + 'earth_overhead_sensor_model.py', E + 'micasense/micasense_image_factory.py', E + 'micasense/micasense_image.py'], [('delegation', C + 'earth_overhead_sensor_model.py'), ('band assembly', E + 'micasense/micasense_image_factory.py')], ('inputs', 'configurations'))
p('P14', 'Elevation models return interpolated heights of the right cells',
  'A raster elevation model returns, for positions inside the raster, the value of the containing cell (nearest) or a value interpolated between the surrounding samples that is exact at sample positions and weights nearer samples more (bilinear); outside positions use the border. Cells holding the no-data value are reported as not-a-number and excluded from the highest, lowest and mean height, a constant model returns its elevation everywhere, and an unknown interpolation method is rejected.',
  'every raster content within bounds, geotransform, position inside and outside the raster, no-data value and input shape',
  'There is no test of elevation sampling.',
  [PH + 'dem/geotiff_dem.py', PH + 'dem/constant_elevation_dem.py', PH + 'dem/dem_factory.py'], [('sampling', PH + 'dem/geotiff_dem.py get_elevations'), ('no-data', PH + 'dem/geotiff_dem.py remove_nodata_values'), ('construction', PH + 'dem/dem_factory.py')])
p('P15', 'Ortho ground grids and their geotransform describe the same cells',
  'The ground grid of an ortho image lists the centres of equal cells that tile the requested rectangle, north row first and west column first, and the geotransform issued for the same rectangle and size maps each pixel centre to that grid point and the raster corners to the rectangle corners. The number of pixels for a ground sample distance is how many whole samples fit in the extent.',
  'every rectangle, number of columns and rows (including one), and ground sample distance',
  'There is no test of grid or geotransform construction; a disagreement shifts products by fractions of a pixel that no sampled value shows.',
  [U + 'photogrammetry_utils.py'], [('cell centres', U + 'photogrammetry_utils.py create_ground_grid'), ('geotransform', U + 'photogrammetry_utils.py world_poly_to_geo_t'), ('pixel count', U + 'photogrammetry_utils.py get_nx_ny_pixels_in_extent')])
p('P16', 'Ortho images carry the sensor value of every ground cell',
  "Each pixel of an ortho image holds, for every requested band in the requested order, the sensor image value at the location where the cell's ground position (at the elevation model's height) images, or the no-data value when that location is outside the sensor image. The product keeps the sample type, carries the requested grid, projection and no-data value, and the optional alpha layer is transparent exactly where the first band holds the no-data value. The ortho of a whole image spans the rectangle around its footprint in the requested (or native) projection with as many whole cells of the ground sample distance in metres as fit, by default the mean pixel spacing of the image.",
  'every sensor image content within bounds, affine sensor model per band, band list, no-data value, and co-registered or per-band sensors',
  'There is no test of ortho-rectification.',
  [PH + 'ortho_tools.py'], [('ortho-rectification', PH + 'ortho_tools.py create_ortho_gtiff_image_world_to_sensor'), ('alpha', PH + 'ortho_tools.py mask_image')], ('inputs', 'configurations'))
p('P17', 'Terrain obstruction is reported exactly where terrain blocks the ray',
  'A ground position seen at a pixel is reported obstructed exactly when the elevation model rises above the line of sight between the ground position and the sensor at one of the sampled steps. Flat terrain obstructs nothing.',
  'every line of sight, terrain height per sampled step, and sampling distance within bounds',
  'There is no test of obstruction.',
  [PH + 'ortho_tools.py'], [('line of sight walk', PH + 'ortho_tools.py are_pixels_obstructed_by_dem')])
p('P18', 'Image footprints and pixel sampling cover the pixels they claim',
  "The footprint of an image is computed from the ground positions of every pixel on its border, of every requested band when bands are not co-registered. Pixel ground positions are taken at the elevation model's height under the pixel, and sampled pixel values are the per-band mean of the valid pixels in the window around the position.",
  'every image size within bounds, affine sensor, band list, elevation model and window content',
  'There is no test of footprints or pixel sampling.',
  [PH + 'ortho_tools.py', I + 'image_utils.py'], [('footprint', PH + 'ortho_tools.py get_extent'), ('pixel positions', PH + 'ortho_tools.py get_pixel_lon_lats'), ('window mean', PH + 'ortho_tools.py get_pixel_values')])
p('P19', 'Image objects return the bands and metadata that were put in',
  'Image data set on an image is returned unchanged, reading or replacing one band touches exactly that band, and asking for a band when no data is loaded yields nothing rather than failing, so that callers can fall back to the file. Bands read from files come in band order with the file\'s size, band count, type and no-data value, for every raster-backed image type.',
  'every image content within bounds, band index, metadata value and image type',
  'Tests set one uniform image, where a wrong band or axis order is invisible.',
  ['resippy/image_objects/abstract_image.py', 'resippy/image_objects/abstract_image_metadata.py', E + 'geotiff/geotiff_image.py', E + 'physical_camera/physical_camera_image.py', E + 'digital_globe/view_ready_stereo/view_ready_stereo_image.py', 'resippy/image_objects/envi/envi_image.py'],
  [('band access', 'resippy/image_objects/abstract_image.py'), ('file readers', E + 'geotiff/geotiff_image.py')])
p('P20', 'Writing a GeoTIFF and reading it back preserves the image',
  'A georeferenced image written to disk and opened again has the same pixel values in every band, data type, size, geotransform, projection and no-data value, including fractional no-data values; 2-D arrays are treated as one band. The in-memory dataset handed to warping holds the same content.',
  'every image content within bounds, sample type, geotransform and no-data value',
  'Tests write uniform images, where swapped bands or axes are invisible, and integral no-data values.',
  [E + 'geotiff/geotiff_image.py', E + 'geotiff/geotiff_metadata.py'], [('writer', E + 'geotiff/geotiff_image.py write_to_disk'), ('in-memory dataset', E + 'geotiff/geotiff_image.py get_gdal_mem_datset'), ('reader', E + 'geotiff/geotiff_image.py init_from_file')])
p('P21', 'ENVI images survive a write and read in every interleave',
  'An image cube written as an ENVI file and read back is identical in values, shape and type, and the samples lie in the file in the order the declared interleave (band sequential, by line, or by pixel) prescribes. Type codes follow the ENVI standard and unsupported types are not silently mapped to another.',
  'every cube content within bounds, size, sample type and interleave',
  'There is no test of the ENVI writer or reader.',
  [U + 'envi_utils.py'], [('writer', U + 'envi_utils.py write_envi_image'), ('reader', U + 'envi_utils.py construct_image_cube_from_raw_data'), ('type codes', U + 'envi_utils.py')])
p('P22', 'ENVI headers are read completely',
  'Every entry of an ENVI header is returned under its key: sizes, offsets and type codes as integers, wavelengths and bandwidths as arrays of numbers in order, other entries as their text, for one-line and multi-line bracketed entries, any newline convention, and with or without a final newline. A header that was written is read back with the same entries.',
  'every numeric content of the entries, newline convention and header ending within bounds',
  'There is no test of header parsing.',
  [U + 'envi_utils.py', 'resippy/image_objects/envi/envi_metadata.py'], [('header parser', U + 'envi_utils.py read_envi_header'), ('header writer', U + 'envi_utils.py write_envi_header')])
p('P23', 'Image chips are exact windows and cover the image',
  'Each chip is exactly the window of the image at its reported upper-left position, in the requested bands and order, with positions moved just enough to lie inside the image when asked to, and chips given by centre contain that centre in the middle. Chipping a whole image covers every pixel without duplicate chips and with the requested overlap, and chips written to disk are one file per chip with the chip content.',
  'every image size, chip size, overlap, position and band list within bounds, and every pixel content',
  'There is no test of the chipper.',
  [I + 'image_chipper.py'], [('windows', I + 'image_chipper.py chip_images_by_pixel_upper_lefts'), ('tiling', I + 'image_chipper.py chip_entire_image_to_memory')], ('inputs', 'configurations'))
p('P24', 'Detection images show the best score covering each pixel',
  'In the image made from chip scores, every pixel holds the highest score among the chips covering it and zero where no chip covers it, and the image is just large enough to hold all chips.',
  'every set of scores and chip positions within bounds, in any order, including negative and equal scores',
  'There is no test of detection images.',
  [I + 'image_utils.py'], [('painting order', I + 'image_utils.py create_detection_image_from_scores')])
p('P25', 'Colour mapping interpolates the palette over the clip range',
  'A pixel value inside the clip range gets the colour linearly interpolated between the palette entries around it (or its bin colour when mapping is discrete), values below and above get the first and last colour, and the range defaults to the minimum and maximum of the valid pixels. This holds for any number of colour bins from two up.',
  'every image value, clip range, palette within bounds and number of bins',
  'There is no test of colour mapping.',
  [I + 'image_utils.py'], [('colour map', I + 'image_utils.py apply_colormap_to_grayscale_image')])
p('P26', 'Basic image operations preserve layout and follow their formulas',
  'Flattening and unflattening bands and cubes are inverse and keep pixels in row-major order, pixel grids enumerate column and row coordinates at the requested sampling, and uniform images hold the requested value per band. Normalising maps the minimum and maximum to the requested bounds linearly and blending is the weighted mean with the given share of the first image.',
  'every image content and size within bounds, bounds, shares, sampling factors and fill values',
  'Tests cover one shape round trip and uniform data.',
  [I + 'image_utils.py', U + 'spectral_utils.py'], [('layout', U + 'spectral_utils.py'), ('grids and arithmetic', I + 'image_utils.py')])
p('P27', 'Colour-coded masks select exactly the pixels of each colour',
  'Given a colour-to-label table, every label is returned with exactly the row and column positions of the pixels whose three colour channels all match its colour, ignoring an alpha channel. Without a table, exactly the pixels with any non-zero colour channel are returned.',
  'every mask image content within bounds, with and without alpha, and every colour',
  'There is no test of colour masks.',
  [I + 'image_mask_utils.py'], [('selection', I + 'image_mask_utils.py')])
p('P28', 'Scene statistics use exactly the unmasked pixels',
  'The spectral mean and covariance of a scene are the sample mean and unbiased sample covariance over the pixels that are not masked out, whatever the masked pixels contain, and without a mask over all pixels. Subtracting the mean gives data whose unmasked mean is zero.',
  'every scene content and mask within bounds',
  'Tests use one random scene and mask.',
  [S + 'spectral_image_processing_1d.py'], [('statistics', S + 'spectral_image_processing_1d.py')])
p('P29', 'Spectral angle scores are the cosine between pixel and target',
  'The spectral angle score of a pixel is the cosine of the angle between its spectrum and the target: one for positive multiples of the target, zero for orthogonal spectra, unchanged by positive scaling of pixel or target, never beyond one in magnitude, and computed for each pixel independently.',
  'every scene, target and scale factor within bounds, non-zero spectra',
  'Tests check one target against one scene.',
  [S + 'spectral_image_processing_1d.py'], [('spectral angle', S + 'spectral_image_processing_1d.py sam')])
p('P30', 'Adaptive detectors compute their quadratic-form statistics',
  'The anomaly score of a pixel is the Mahalanobis form of its deviation from the mean under the inverse covariance, and the adaptive cosine score is the squared whitened inner product of pixel and target deviations over the product of their whitened norms, so it is one at the target and lies between zero and one. Supplied statistics are used as given, missing ones are the (masked) scene statistics, and the demeaned form agrees with the general one.',
  'every scene, target, mean, positive definite inverse covariance and mask within bounds',
  'Tests compare one scene with itself and one mean.',
  [S + 'spectral_image_processing_1d.py'], [('anomaly detector', S + 'spectral_image_processing_1d.py rx_anomaly_detector'), ('adaptive cosine', S + 'spectral_image_processing_1d.py ace')])
p('P31', 'Image-cube processing equals per-sample processing',
  'Every spectral operation on an image cube gives, pixel by pixel, what the same operation gives on the list of its pixels, with results placed at the pixel they belong to and masks applied to the pixel they belong to, for non-square images and with or without optional arguments.',
  'every cube content, mask and size within bounds for every operation offered in both forms',
  'Tests compare means on one square-ish cube, where transposed placement can hide.',
  [S + 'spectral_image_processing_2d.py', U + 'spectral_utils.py'], [('cube wrappers', S + 'spectral_image_processing_2d.py')])
p('P32', 'Covariance equalisation maps a scene onto the statistics of another',
  "The equalising transform applied to a mean-centred scene gives it the covariance of the scene to match: the transform times the input covariance times its transpose equals the target covariance, over the unmasked pixels of each scene. Equalising a scene to itself changes nothing, and each pixel is transformed on its own.",
  'every pair of scenes with positive definite covariance, and masks, within bounds',
  'Tests check one random pair.',
  [S + 'spectral_image_processing_1d.py', S + 'spectral_image_processing_2d.py'], [('equalising transform', S + 'spectral_image_processing_1d.py compute_cov_eq_linear_transform_matrix')])
p('P33', 'Spectra keep their data and resample as response-weighted means',
  'A spectrum returns the data, wavelengths, bandwidths and units it was given, with no-data values replaced by not-a-number only when asked and never altering the stored data. Resampling to sensor bands gives each band the response-weighted mean of the spectrum, so a constant spectrum stays constant and band responses outside the spectrum contribute nothing.',
  'every spectrum, no-data value and band response within bounds',
  'There is no test of spectra.',
  [S + 'spectrum.py'], [('no-data', S + 'spectrum.py get_spectral_data'), ('resampling', S + 'spectrum.py resample_spectrum_direct')])
p('P34', 'Spectral library files are read value for value',
  'Reading a spectrum from each supported text format (delimited, instrument signature, plot and library files) returns every wavelength with its own reflectance in file order, scaled to zero-one reflectance, with header lines skipped, the requested columns used, and the units of the format.',
  'every numeric content and number of rows and header lines within bounds, for each format',
  'There is no test of the library readers.',
  [S + 'spectrum_factories/csv/ascii/csv_spectral_factory.py', S + 'spectrum_factories/SVC/ascii/svc_spectral_factory.py', S + 'spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py', S + 'spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py'],
  [('readers', S + 'spectrum_factories')], ('inputs', 'configurations'))
p('P35', 'UTC and GPS time conversions are exact and mutually inverse',
  'Converting a UTC timestamp to GPS time adds exactly the leap seconds inserted since the GPS epoch (and shifts the epoch), independent of the time zone of the machine; converting back returns the original timestamp for every instant. The GPS week and seconds of week are the quotient and remainder by one week.',
  'every instant from the GPS epoch on, including those around each leap second, and every time zone of the machine',
  'There is no test of time conversion.',
  [U + 'time_utils.py'], [('leap second table', U + 'time_utils.py _LEAPSECONDS'), ('conversions', U + 'time_utils.py')], ('inputs', 'configurations'))
p('P36', 'Navigation lookups interpolate linearly between the neighbouring records',
  'Looking up position, altitude or attitude at a time inside the recorded span returns the linear interpolation between the two records around it and exactly the record at a record time, including the first and last, for scalars, 1-D and 2-D times in the same shape. Times outside the span give no result.',
  'every set of time-ordered records within bounds, and every lookup time, for both navigation formats and each quantity',
  'There is no test of navigation.',
  [PH + 'nav/abstract_nav.py', PH + 'nav/applanix_eo_nav.py', PH + 'nav/applanix_sbet_nav.py'], [('interpolation', PH + 'nav/applanix_eo_nav.py'), ('interpolation', PH + 'nav/applanix_sbet_nav.py'), ('shapes', PH + 'nav/abstract_nav.py')])
p('P37', 'Navigation files load every record into aligned columns',
  'Loading a navigation file yields one record for each complete data line (or stored record), each value under its own quantity, with header and incomplete lines contributing nothing, so that all columns stay aligned. The projection is the one described by the arguments.',
  'every numeric content, number of records and position of header, blank and truncated lines within bounds',
  'There is no test of navigation files.',
  [PH + 'nav/applanix_eo_nav.py', PH + 'nav/applanix_sbet_nav.py', PH + 'nav/nav_factory.py'], [('text loader', PH + 'nav/applanix_eo_nav.py load_from_file'), ('record loader', PH + 'nav/applanix_sbet_nav.py load_from_file')])
p('P38', 'Camera image tags give the capture time and position',
  'The capture position read from image tags is degrees plus sixtieths of minutes plus 3600ths of seconds, each as the exact fraction stored, negative for south and west. The capture time is the GPS seconds-of-week of the tagged UTC second plus the tagged decimal fraction digits.',
  'every fraction, hemisphere, timestamp and sub-second text within bounds',
  'There is no test of image tags.',
  [E + 'micasense/micasense_image.py'], [('tag conversion', E + 'micasense/micasense_image.py')])
p('P39', 'Text and table helpers preserve their content',
  'A list of text lines written to a file and read back is the same list, whatever the lines contain apart from newlines; newline clean-up turns every newline convention into the platform one and changes nothing else. Delimited tables are returned column by column under their header names, tuple lists and separate lists convert back and forth, and removing a value removes exactly its occurrences.',
  'every list length and text within bounds, newline convention and table content',
  'There is no test of these helpers.',
  [U + 'file_utils.py', U + 'string_utils.py', U + 'csv_utils.py', U + 'numpy_and_array_utils.py'], [('text lists', U + 'file_utils.py'), ('newlines', U + 'string_utils.py'), ('tables', U + 'csv_utils.py'), ('lists', U + 'numpy_and_array_utils.py')])
p('P40', 'Coordinate helpers use the right projection in the right direction',
  'The local UTM projection of a position is the zone and hemisphere the position falls in. Shifting points moves them by exactly the given metres east and north in the metric projection and returns them in their own projection, and reprojecting a geometry transforms every vertex from the source to the destination projection in order.',
  'every position, shift and pair of projections (as arbitrary invertible maps)',
  'Tests shift points by hand-picked amounts along one axis; the UTM helper raises in current environments.',
  [U + 'proj_utils.py', U + 'photogrammetry_utils.py'], [('UTM zone', U + 'proj_utils.py'), ('shift and reproject', U + 'photogrammetry_utils.py')])
p('P41', 'Mutual information of two images is computed from their joint histogram',
  'The registration score of two images is the sum over joint histogram bins of the bin count times the logarithm of the bin count over the product of the marginal counts. It is symmetric in the images and empty bins contribute nothing.',
  'every image content within bounds and number of bins',
  'There is no test of image registration.',
  [I + 'image_registration.py'], [('score', I + 'image_registration.py')])
p('P42', 'Simulated camera images show the source raster at the ground point of each pixel',
  'Each pixel of a simulated image holds the source raster interpolated where the simulated camera maps the pixel to the ground, with the camera pose composed from the given attitude and the mounting angles, each in its own unit. The returned image carries the camera model and size used to make it.',
  'every pose, mounting angles, unit choice and source raster content within bounds',
  'There is no test of the simulator.',
  [U + 'physical_camera_simulator.py'], [('pose', U + 'physical_camera_simulator.py _generate_camera_point_calc'), ('rendering', U + 'physical_camera_simulator.py create_overhead_image_object')], ('inputs', 'configurations'))
p('P43', 'Chip classifiers score every chip and report all classes',
  'Scoring an image with a trained classifier returns one score vector per chip, in chip order with the chip positions, computed from exactly that chip of the three colour channels, resized to the size of the model and normalised as asked; naming a class returns the score of that class for each chip. Training uses each labelled image once per epoch, lists the class labels in the order of their indices, and leaves validation images unflipped.',
  'every image, model output and chip grid', 'There is no test; the model runtime is not installed.',
  ['resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py', 'resippy/image_recognition/neural_net_model_training/keras_model_training.py'], [('scoring', 'resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py chip_and_score_image'), ('training', 'resippy/image_recognition/neural_net_model_training/keras_model_training.py train_model')], ('inputs', 'configurations'))
p('P44', 'Principal components of a scene stay with their pixels',
  'The principal-component image of a cube holds at each pixel the component scores of that pixel\'s own spectrum, as many components as asked for (all by default), in order, and whitened exactly when asked. The cube itself is left as it was.',
  'every cube content within bounds, every number of components, whitened or not', 'There is no test.', [S + 'spectral_image_processing_2d.py'], [('PCA wrapper', S + 'spectral_image_processing_2d.py compute_image_cube_pca')])
p('P45', 'Datum conversion, raster warping and map tiles keep values and positions',
  'Converting an elevation model to another vertical datum (reference, geoid or ellipsoid heights) gives every valid cell its height in the new datum, keeps horizontal datum, no-data cells and interpolation, and leaves the source file alone. Warped images, from files or memory, named or not, hold the samples of their own source in the destination coordinates. Map tiles are cut from the image itself, in web mercator.',
  'every raster, datum offset and history of warps', 'There is no test; needs datum grids and native GDAL warping.', [E + 'geotiff/geotiff_image.py', PH + 'dem/geotiff_dem.py'], [('warp', E + 'geotiff/geotiff_image.py gdalwarp_geotiff_image'), ('vertical datum', PH + 'dem/geotiff_dem.py convert_to_ellipsoid_heights')], ('inputs', 'histories'))

p('P46', 'Folder listings name exactly the files asked for',
  'Asking a folder for its files gives every visible file in it exactly once and no folders: all of them, those with any of the given extensions (written with or without dot and star), or those beginning with any of the given prefixes, as full paths or bare names, whatever characters the names contain. Asking for its folders gives exactly the sub-folders, and a path built from parts goes down the parts in order.',
  'every set of entry names, extensions and prefixes within bounds', 'There is no test of the file helpers.',
  [U + 'file_utils.py'], [('listing', U + 'file_utils.py get_all_files_in_dir'), ('prefixes', U + 'file_utils.py get_files_in_dir_that_start_with')], ('inputs', 'configurations'))

EXTRA = {}     # pid -> level note additions


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in L:
            f.write(json.dumps({k: v for k, v in e.items() if k != 'na'}, ensure_ascii=False) + '\n')
            assert len(e['title']) <= 80, e['id']
            n = len(re.findall(r'\.(?=\s|$)', e['statement']))
            assert n <= 3, (e['id'], n)
    checks, na = [], []
    for e in L:
        h = os.path.join(HERE, 'harness', e['id'] + '.py')
        if e['na']:
            na.append(dict(property=e['id'], reason=e['na']))
        elif not os.path.exists(h):
            na.append(dict(property=e['id'], reason='harness not built yet'))
        else:
            src = open(h).read()
            b = re.search(r"bounds=('|\")(.*?)\1\s*,\n", src, re.S)
            o = re.search(r"outside=('|\")(.*?)\1\s*[,)]", src, re.S)
            checks.append(dict(property=e['id'], quick_cmd='python3 run.py ' + e['id'], thorough_cmd='python3 run.py %s --tier thorough' % e['id'],
                               technique='solver-based symbolic execution of the real Python source: inputs are SMT variables, the property an assertion, decided by z3 over all values within the bounds (polynomial equalities also by normal form, confirmed by z3); counterexamples replayed on the unmodified code',
                               level='model_checking',
                               level_note='Bounds: %s. Outside: %s.' % (b.group(2) if b else 'see harness', o.group(2) if o else 'see harness')))
    json.dump(dict(version=1, setup_cmd='python3 run.py --help', checks=checks, not_applicable=na,
                   notes='Engine in sv/, one harness per property in harness/, repaired and known defects in known_findings.txt; see DESIGN.md.'),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


if __name__ == '__main__':
    main()
