"""what each property is decided against (one line each), for DESIGN.md"""
ORACLE = dict(
P01='products of the three elementary rotation matrices per order; orthonormality and determinant as polynomial identities in sines and cosines; recovered angles compared as angles',
P02='composition of rotation matrices and offsets written from the statement, units by constant factors; repeated setting of the same fixture',
P03='collinearity equations with the rotation as an arbitrary proper rotation; inverse by substitution of the returned ground point',
P04='collinearity through the documented pixel convention, from local and geographic constructors, flips and units included',
P05='the RPC00B cubic written term by term (20 terms, 4 polynomials, offsets and scales), also from text files with symbolic digits/numbers',
P06='Pix4D distortion polynomial and projection written out; parameter files as symbolic text of several layouts',
P07='Brown model (k1-k3, p1, p2) written out; pixel to ground checked by substituting back into the model',
P08='the affine geotransform and its inverse (composition both ways is the identity)',
P09='inverse-distance mean over the ordering of neighbours fixed per run (every coordinate array having that ordering is covered)',
P10='one symbolic model (arbitrary affine per band) asked with numbers, lists, tables, other projections: each element equals the answer for that element alone',
P11='the returned position is put back into the forward model: residual within the threshold, for families of forward models',
P12='ray/terrain intersection written as the first sampled crossing; heights against the elevation model stand-in',
P13='each band has its own symbolic model; the answer for a band equals the one of its model',
P14='nearest and bilinear interpolation of symbolic grids at symbolic positions, incl. borders and no-data',
P15='cell centres from the extent; the geotransform maps (col+0.5,row+0.5) to the same positions',
P16='for each ground cell: own spline/nearest evaluation of the sensor image at the modelled pixel, no-data outside',
P17='sampling of the sight line and comparison with terrain, written from the statement',
P18='border positions of all bands, convex hull stand-in; window means of valid samples',
P19='stored symbolic arrays and metadata read back through every accessor, also after later changes',
P20='in-memory GDAL model: what was written to bands, geotransform, projection and no-data equals the image',
P21='byte layout of the three interleaves written from the ENVI definition; files of symbolic samples',
P22='headers of symbolic and enumerated text; entry values compared with the text between key and end of entry',
P23='index arithmetic of windows and grids on symbolic images; coverage of every pixel',
P24='maximum of the scores of the windows covering each pixel',
P25='linear interpolation of palette and clip range written out, integer types included',
P26='per-operation formulas over symbolic images',
P27='membership of each pixel in each colour, per channel',
P28='mean and covariance sums over unmasked samples written out',
P29='cosine of the angle as quotient of sums, scale invariance and range',
P30='quadratic forms (RX, matched filter, ACE) with an arbitrary or computed inverse covariance',
P31='each cube function equals its per-sample counterpart on the reshaped cube',
P32='mean and covariance of the transformed scene equal those of the target, via the defining matrix equations of roots',
P33='response-weighted integral by trapezoids of piecewise linear functions; data, no-data and units kept',
P34='files of symbolic numbers in every layout read by the library; each value at its place',
P35='definition of GPS time with the leap-second table as interval constraints; inverse both ways',
P36='two-point linear interpolation at the position given by the neighbouring times',
P37='each line of symbolic numbers is one record, in the column order of the format',
P38='degrees/minutes/seconds and date tags converted by the definition of the tags',
P39='round trips and per-character definitions over symbolic text',
P40='UTM zone arithmetic of the longitude; composition order of shifts; inverse transforms',
P41='joint histogram counts per bin as symbolic counts, score formula written out',
P42='camera pose from composed rotations; spline evaluation of the source raster at the ground point of each pixel',
P43='chip windows, resizing stand-in and model stand-in that records exactly what it is shown',
P44='a linear stand-in for the decomposition; position of each score',
P45='in-memory model of warps and datum offsets; per-cell heights, sources left alone',
P46='a model of a folder: the set of visible entries with the asked extension or prefix',
)
