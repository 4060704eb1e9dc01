#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=(),
         technique=None, level='proof', note='', na=None):
    P.append(dict(
        row=dict(id=pid, title=title, statement=statement,
                 quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[
                     dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)),
        technique=technique, level=level, note=note, na=na))


SPEC = ('abstract interpretation of the source to closed-form summaries, '
        'compared with those of a reference specification')
REAL = ('Numbers are reals (rounding is out of scope); numpy, GDAL and scipy '
        'calls are modelled by their documented meaning. ')
M, T, S, U = ('all_multipliers.py', 'terrain/terrain_mult.py',
              'shielding/shield_mult.py', 'utilities/')
TP = 'topographic/'

prop('C01', 'Tiles partition the study area and are all processed',
     'For every raster size and tile size the cores of the tiles cover every '
     'cell of the study area exactly once. Every tile of the grid is in the '
     'list of work.',
     ['inputs', 'configurations'],
     'all raster sizes, tile sizes, cell sizes and tile numbers',
     'The tests use one small raster with one tile size; gaps and overlaps '
     'appear for sizes that do not divide evenly or on later rows only.',
     [M], [('tile index to window of cells', M + ': TileGrid.get_gridlimit'),
           ('number of rows and columns of tiles', M + ': TileGrid'),
           ('work list', M + ': get_tiles, get_tileinfo')],
     ['core window of each tile'], SPEC, 'proof',
     REAL + 'Raster, tile and buffer sizes and the tile number are symbols.')
prop('C02', 'A tile is buffered on every side, cut off at the raster border',
     'A tile is processed with its core widened on each side by the upwind '
     'distance in whole cells, and by less only where the raster ends.',
     ['inputs', 'configurations'],
     'all raster sizes, tile sizes, upwind lengths and tile numbers',
     'Tests look at single tiles; missing buffer cells bias multipliers near '
     'tile borders only.',
     [M], [('buffered window', M + ': TileGrid.get_gridlimit_buffer, '
            'tile_grid')], ['buffered window of each tile'], SPEC, 'proof',
     REAL + 'Same symbols as C01.')
prop('C03', 'Tile extents and names are the coordinates of the tile',
     'The core extent and the buffered extent handed to the processing of a '
     'tile are the geographic coordinates of the borders of its cells. '
     'Its name is formed from the upper left corner of its core.',
     ['inputs', 'configurations'],
     'all raster sizes, origins, cell sizes and tile numbers',
     'Tests check few values on one geotransform; swapped axes or signs pass '
     'for square tiles.',
     [M], [('extents', M + ': TileGrid.get_tile_extent, '
            'get_tile_extent_buffer'),
           ('name', M + ': TileGrid.get_tilename'),
           ('work list order', M + ': get_tileinfo')],
     ['name and extents in the work list'], SPEC, 'proof',
     REAL + 'Geotransform is symbolic, north-up.')
prop('C04', 'Output is cut to exactly the core of the tile',
     'A multiplier written for a tile holds exactly the cells of the core of '
     'the tile, with the latitudes and longitudes of the centres of those '
     'cells, however the coordinates of the tile are rounded.',
     ['inputs'], 'all grids, tile positions and sizes, and coordinate '
     'rounding errors below 1/8 of a cell',
     'The unit test of the clip uses one window; off-by-one cells from '
     'truncated coordinates depend on the rounding of particular tiles.',
     [U + 'nctools.py'], [('window', U + 'nctools.py: clip_array'),
                          ('centres', U + 'nctools.py: get_lat_lon')],
     ['rows, columns and coordinate variables of the netCDF files'], SPEC,
     'proof', REAL + 'Corner coordinates are off the cell grid by a symbolic '
     'error below 1/8 cell, so truncation instead of rounding is seen.')
prop('C05', 'All eight directions are written and read under the same names',
     'Each of the three multipliers is written once per tile for each of the '
     'eight wind directions, in a file named after multiplier, tile and '
     'direction. The combination step reads exactly those files.',
     ['inputs', 'configurations'], 'all tiles, all eight directions',
     'Tests call single functions; no test runs the steps on each other\'s '
     'files, so a name mismatch silently gives ones (see C19).',
     [T, S, TP + 'topo_mult.py', U + 'convert.py'],
     [('terrain files', T + ': terrain'),
      ('shielding files', S + ': convo_combine'),
      ('topographic files', TP + 'topo_mult.py: topomult'),
      ('reader', U + 'convert.py: Converter.process_tile'),
      ('folders', M + ': do_output_directory_creation')],
     ['names of files written and opened'], SPEC, 'proof',
     'Names written (terms over output folder, tile, direction) are compared '
     'with names opened, as sets. ' + REAL)
prop('C06', 'Terrain multiplier is the upwind mean behind the lag distance',
     'For every cell and each wind direction the value used is the mean of '
     'the first averaging-distance cells farther upwind than the lag '
     'distance, in that direction, within the grid; a cell with none keeps '
     'its own value.',
     ['inputs', 'configurations'],
     'all grids, grid sizes, lag and averaging widths, eight directions',
     'Tests compare small fixed grids with fixed widths for one lag; border '
     'cells, narrow grids and other widths are not reached.',
     [T], [('convolution', T + ': convo'),
           ('lag and averaging distances', T + ': terrain')],
     ['mz grids'], SPEC, 'proof', REAL + 'Loops over cells become closed '
     'forms; grid size, lag and width are symbols; one instance per '
     'direction.')
prop('C07',
     'Each land-cover class gets the multiplier of its own roughness',
     'Every cell of a land-cover class of the table has the terrain '
     'multiplier that the formula gives for the roughness length of that '
     'class (-0.2827 ln(0.4554 ln z0 + 3.734) + 1.0762); a cell of a '
     'class that is not in the table has 0, which marks it as missing. '
     'The table is the file terrain_table of the configuration, comment '
     'lines (#) left out. '
     'No other cell, row of the table or order of rows plays a part.',
     ['inputs'], 'all roughness values',
     'Tests check few values, not the segments\' borders or continuity.',
     [T], [('class to roughness to multiplier', T + ': terrain_class2mz_orig'
            ', mz_calc')], ['mz of a cell'], SPEC, 'proof', REAL)
prop('C08',
     'Terrain files hold the core of the tile, missing cells as missing',
     'For each direction the terrain file of a tile holds the upwind '
     'mean of its core; a cell whose class has no multiplier is missing '
     '(NaN) in the file and counts as 1 in the means of its neighbours. '
     'The averaging distance is 500 m and the lag 200 m in cells of the '
     'tile (along the diagonal for diagonal directions), and directions '
     'do not influence each other.',
     ['inputs', 'configurations'], 'all land-cover grids, look-up tables',
     'No test runs the terrain step with missing cells through to the files.',
     [T], [('step', T + ': terrain'), ('classes', T +
                                       ': terrain_class2mz_orig')],
     ['terrain/*.nc'], SPEC, 'proof', REAL + 'Grid and table are symbolic.')
prop('C09',
     'Initial shielding is the class value in percent, missing kept',
     'Before averaging each cell has SHIELDING/100 of its land-cover '
     'class, one for classes that are not in the table, and is missing '
     'where the land cover has its no-data value. The table is the file '
     'terrain_table of the configuration, comment lines (#) left out.',
     ['inputs'], 'all land-cover grids, look-up tables',
     'The test has a fixed land-cover grid in which most classes are absent.',
     [S], [('classes', S + ': terrain_class2ms_orig')],
     ['initial shielding raster'], SPEC, 'proof', REAL)
prop('C10',
     'Shielding of a direction averages exactly the upwind sector',
     'For each direction the shielding of a cell is the equally weighted '
     'mean over the cells in the sector upwind of it within 100 m (cells '
     'outside of the raster count as one; cells of more than 100 m keep '
     'their own value). It is then combined with slope and aspect for '
     'that direction and written to that direction\'s file; the result of '
     'a direction does not depend on other directions.',
     ['inputs', 'configurations'], 'all grids, window sizes, directions',
     'Tests compare the kernels of one size; kernels and grids of other '
     'sizes and the pairing of kernel and file are not reached.',
     [S], [('kernels', S + ': kern_n ... kern_nw, init_kern, '
            'init_kern_diag'), ('per direction', S + ': convo_combine')],
     ['shielding/*.nc'], SPEC, 'proof', REAL + 'Kernel size is a symbol.')
prop('C11',
     'Upwind slope and conservatism change shielding as specified',
     'A slope facing the wind takes shielding towards one: not up to '
     '3.27 degrees, linearly between, completely from 12.30 degrees; '
     'other aspects keep it. After that values below 0.9 are multiplied '
     'by 0.9 and the others squared, and a missing cell stays missing.',
     ['inputs'], 'all slopes, aspects and shielding values',
     'Tests take random-looking samples that avoid the borders between '
     'pieces.',
     [S], [('combination', S + ': combine')], ['ms of a cell'], SPEC,
     'proof', REAL)
prop('C12',
     'Slope and aspect of a cell follow its neighbourhood',
     'The slope of a cell is the angle of the Sobel gradient of the '
     'elevation in metres, with the width and height of that cell, and '
     'is missing where the elevation is. The aspect is the 45 degree '
     'sector (1 north, clockwise, 9 none) of the downslope bearing, each '
     'bearing in exactly one sector.',
     ['inputs'], 'all elevation grids and pixel sizes',
     'The test uses one grid; sector borders and missing elevation are not '
     'reached.',
     [S], [('slope and aspect', S + ': get_slope_aspect')],
     ['slope, aspect'], SPEC, 'proof', REAL)
prop('C13', 'Topographic lines cover the grid and go back to their cells',
     'For each direction every cell of the elevation grid is on exactly one '
     'line along the wind, and the multiplier computed for a point of a line '
     'is stored at the cell it came from, in the file of the direction.',
     ['inputs', 'configurations'], 'all grid sizes, eight directions',
     'Tests use engineered hills on one grid; non-square grids and corners '
     'of diagonal directions are not reached.',
     [TP + 'make_path.py', TP + 'topo_mult.py'],
     [('lines', TP + 'make_path.py: make_path'),
      ('step', TP + 'topo_mult.py: topomult')],
     ['topographic/*.nc'], SPEC, 'proof', REAL)
prop('C14',
     'The hill-shape multiplier follows the standard\'s formula',
     'For a crest and its valley the multiplier is one on the whole line '
     'when the hill is lower than 10 m, flatter than 0.05 or shorter '
     'than one cell, otherwise one plus h/(3.5(10+L1)) decaying linearly '
     'from the crest to the end of the zone of 4 L1 (stretched behind '
     'the crest by the escarpment factor, 0.71 in the separation zone), '
     'and at most 1.71. A line has at each cell the largest value any of '
     'its hills causes there, and at least one.',
     ['inputs'], 'all elevation lines, crests and valleys',
     'Tests compare engineered hills; upwind and downwind zones and steep '
     'slopes are only sampled.',
     [TP + 'mh.py', TP + 'multiplier_calc.py'],
     [('formula', TP + 'mh.py: escarpment_factor/mh_calc'),
      ('line', TP + 'multiplier_calc.py: multiplier_calc')],
     ['multiplier of a point of a line'], SPEC, 'proof', REAL)
prop('C15',
     'Conservatism, Tasmanian factor and smoothing of topography',
     'Hill-shape values between 1 and 1.4 are multiplied by 1.25 - 0.25 '
     'Mh and those from 1.4 on by 0.9; in Tasmania only, cells above 500 '
     'm are multiplied by 1 + 0.00015 elevation; then the 3x3 mean is '
     'taken, to which nothing from outside of the raster adds. Cells '
     'without elevation are missing.',
     ['inputs'], 'all grids, elevations and tile extents',
     'Tests use fixed arrays; borders of the pieces and of the raster are '
     'not reached.',
     [TP + 'topo_mult.py'], [('corrections', TP + 'topo_mult.py: '
                              'remove_conservatism, tasmania, topomult')],
     ['mt of a cell'], SPEC, 'proof', REAL)
prop('C16', 'Every input is the one its setting names',
     'The land cover the terrain and shielding multipliers are computed '
     'from is that of the setting terrain_data and the elevation the tiles, '
     'the shielding and the topographic multipliers are computed from that '
     'of dem_data, never one for the other; the terrain classes are those '
     'of terrain_table; everything is written below output_dir and '
     'converted there; the log takes its file, level and echo from their '
     'settings. Every setting asked for is in the delivered '
     'multiplier_conf.cfg, which is the one used when none is named, '
     'whatever the working directory.',
     ['configurations', 'inputs'], 'all settings, one tile of any extent',
     'No test runs the main program.',
     [M, 'terrain/terrain_mult.py', 'pre_process.py', U + 'config.py',
      'multiplier_conf.cfg'],
     [('inputs', M + ': run, Multipliers.multipliers_calculate'),
      ('default file', U + 'config.py: _get_default_config')],
     ['rasters each step is given', 'settings asked for'],
     'abstract interpretation of the source; dataflow from settings through '
     'rasters to the steps', 'other', '')
prop('C17', 'M3 is the product of the three multipliers of tile and direction',
     'Each of the eight bands of a tile of the combined product is, cell by '
     'cell, the product of terrain, shielding and topographic multiplier of '
     'the same tile and the same direction. The band is described by that '
     'direction, in a fixed order, and a cell missing in any of them is '
     'missing (-9999, declared as such). The file has the size and place of '
     'the tile and is in longitude and latitude (EPSG:4326).',
     ['inputs'], 'all tiles, directions and multiplier grids',
     'No test reads a combined product.',
     [U + 'convert.py'], [('product', U + 'convert.py: '
                           'Converter.process_tile')],
     ['M3/*.tif'], SPEC, 'proof', REAL)
prop('C18', 'M3_max is the largest of the eight directions',
     'The maximum product has one band, which in each cell holds the largest '
     'of the eight bands of the combined product of the same tile, on the '
     'same grid and in the same reference system (EPSG:4326), with -9999 '
     'declared as missing.',
     ['inputs'], 'all tiles and grids', 'No test reads the maximum product.',
     [U + 'convert.py'], [('maximum', U + 'convert.py: '
                           'Converter.process_max_tile')],
     ['M3_max/*.tif'], SPEC, 'proof', REAL)
prop('C19', 'A missing multiplier file counts as one and nothing else',
     'When the file of one multiplier of a tile and direction cannot be '
     'opened, the combined product of that direction is that of the others, '
     'on the same grid, and other directions and tiles are unaffected. (The '
     'north shielding file, which gives the grid, is there.)',
     ['inputs', 'fault_sequences'],
     'every subset of the multiplier files of a tile missing',
     'No test removes a file.',
     [U + 'convert.py'], [('fallback', U + 'convert.py: '
                           'Converter.process_tile')],
     ['M3/*.tif'], SPEC, 'proof', REAL)
prop('C20', 'Combination covers every tile once, on any number of ranks',
     'For every number of processes each tile found in the output is '
     'combined by exactly one of them, and both mosaics list every tile that '
     'was combined.',
     ['inputs', 'configurations', 'schedules'],
     'all tile lists and numbers of processes',
     'mpi4py is not run by the tests; they run one process.',
     [U + 'mpi_runner.py', U + 'convert.py'],
     [('distribution', U + 'mpi_runner.py'),
      ('mosaic', U + 'mpi_runner.py')],
     ['M3/*.vrt, M3_max/*.vrt'], SPEC, 'other',
     'Numbers of processes and tiles up to a bound (in the evidence); '
     'Converter.run is compared for any list of tiles.')
prop('C21', 'Master and workers process every tile and terminate',
     'With several processes each tile is sent to exactly one worker, every '
     'worker gets a stop message after the last tile, and the master waits '
     'for all results, for every order of arrival and fewer tiles than '
     'workers as well.',
     ['schedules', 'configurations'],
     'all orders of results, numbers of tiles and workers',
     'Tests have no MPI; one schedule at best.',
     [M], [('protocol', M + ': Multipliers.parallelise_on_tiles')],
     ['messages'], SPEC, 'other',
     'Numbers of workers and tiles up to a bound (in the evidence); the '
     'order in which results arrive is a symbol. Fair, loss-free messages '
     'are assumed.')
prop('C22', 'Collective steps are reached by every process, in one order',
     'Every process takes part in every barrier, scatter and gather, in the '
     'same order, and no process starts a phase before the previous phase is '
     'complete everywhere. Only the first process makes the output folders '
     'and the mosaics.',
     ['schedules', 'configurations'], 'all ranks and numbers of processes',
     'Tests run one process, where a barrier is a no-op.',
     [M, U + 'mpi_runner.py'], [('phases', M + ': run'),
                                ('combination', U + 'mpi_runner.py')],
     ['collective calls'], 'summaries of the whole main program for each '
     'rank by abstract interpretation; comparison of the sequences of '
     'collective operations and of the effects between them', 'other',
     'Numbers of processes and of tiles found for the combination up to a '
     'bound (in the evidence); everything else is unknown.')
prop('C23', 'Without MPI the program runs the same steps in one process',
     'When MPI cannot be loaded every communication operation '
     'that a single process performs exists in the replacement, accepts the '
     'arguments given and behaves as with a single process of MPI.',
     ['configurations'], 'all uses of the communicator in the program',
     'Tests import the replacement but not each operation used with it.',
     [U + 'parallel.py'], [('replacement', U + 'parallel.py')],
     ['communicator'], 'summaries of the whole main program with the '
     'replacement and with a modelled communicator of one process, compared '
     'step by step', 'proof', '')
prop('C24', 'Inputs are never changed; only the output folder is deleted',
     'The program opens its input rasters and tables for reading only, '
     'writes files only below the output folder (apart from its log file), '
     'and deletes nothing outside of it.',
     ['inputs', 'configurations'], 'all paths through the program',
     'Tests do not look at what else is written or deleted.',
     [M, S, T, TP + 'topo_mult.py', U + 'convert.py'],
     [('output folder', M + ': do_output_directory_creation'),
      ('temporary files', M + ': multipliers_calculate')],
     ['files opened for writing, removed'],
     'effect analysis: file effects of the linearised summary of a tile and '
     'of the main program, each path traced to its root', 'proof', '')
prop('C25', 'Temporary rasters of a tile are removed after their last use',
     'Every intermediate raster made for a tile is removed by the end of the '
     'processing of that tile, and not before the last step that reads it.',
     ['inputs'], 'all tiles', 'Tests do not run a tile from end to end.',
     [M, S], [('removal', M + ': multipliers_calculate'),
              ('shielding', S + ': shield')],
     ['files left in the output folder'],
     'ordered effect summaries (create, read, remove) of the tile steps',
     'proof', '')
prop('C26', 'The working directory is never changed',
     'No step leaves the process in another working directory, so relative '
     'paths of the configuration mean the same for every tile.',
     ['histories'], 'all sequences of steps',
     'Tests use absolute paths or run a single step.',
     [S, M], [('paths', S + ': shield')], ['os.getcwd()'],
     'typestate over the syntax tree of every function reachable from the '
     'main program, through the call graph', 'proof', '')
prop('C27', 'NetCDF files are complete and closed when a tile is done',
     'A multiplier file has every dimension, variable and attribute asked '
     'for with its data, and is closed on return (unless it is asked to stay '
     'open). A table of dimensions or variables without a needed key raises '
     'KeyError, values whose number of dimensions differs from the variable '
     'raise ValueError; the file is closed then as well.',
     ['inputs', 'fault_sequences'], 'all dimensions, variables and options',
     'No test writes a file with several variables or a refused one.',
     [U + 'nctools.py'], [('writer', U + 'nctools.py: nc_save_grid')],
     ['netCDF file'], 'typestate of the data set over all paths, with '
     'summaries of the writer', 'proof', '')
prop('C28', 'Files describe their grid and origin; git is optional',
     'Each multiplier file is given the latitudes and longitudes passed in '
     '(rows and columns; with units, standard names and actual ranges), the '
     'multiplier with its range leaving missing cells out and -9999 for '
     'them, the WGS84 reference system, an abstract naming the multiplier '
     'and the wind direction of its file, and every setting of the '
     'configuration as section_option. The version is asked for in the '
     'directory of the source, not the working directory, and a version '
     'control tool that is not there, cannot be run or fails (no '
     'repository) does not stop the file from being written.',
     ['inputs', 'configurations', 'fault_sequences'],
     'all tiles and configurations; git absent or failing',
     'No test looks at the metadata or runs without git.',
     [U + 'nctools.py', U + 'files.py'],
     [('metadata', U + 'nctools.py: save_multiplier'),
      ('version', U + 'files.py')], ['netCDF attributes'], SPEC, 'proof', '')
prop('C29', 'A raster or file that cannot be opened is an error',
     'A raster, tile, table or output file that cannot be opened or made, '
     'whether GDAL reports this by returning nothing or by raising, stops '
     'the step with an error (the run ends with a non-zero status); it is '
     'never processed as if it were empty or left out. Multiplier files '
     'missing when tiles are combined are C19.',
     ['inputs', 'fault_sequences'], 'every input missing or unreadable',
     'Tests only open files that exist.',
     [M, S, T, U + 'nctools.py'], [('opening', M + ': open_dem, Multipliers')],
     ['exceptions'], 'path analysis from opening calls to first uses',
     'proof', '')
prop('C30', 'Elevation and land cover of a tile share one grid',
     'The elevation of a tile holds exactly the cells of its buffered '
     'extent; the land cover is brought onto those cells by nearest '
     'neighbour, so classes are never mixed; a projection asked for is '
     'used. The three multipliers get the rasters and the extent of that '
     'tile.',
     ['inputs'], 'all tiles, rasters and projections',
     'The tests compare one raster whose grids already match.',
     [M], [('cutting', M + ': clip_dataset, Multipliers.cut_dem'),
           ('resampling', M + ': reproject_dataset'),
           ('steps', M + ': Multipliers.multipliers_calculate')],
     ['rasters of a tile'], SPEC, 'proof', REAL)
prop('C31', 'Configuration comes from the chosen file, or is refused',
     'When a configuration file is named on the command line it is read '
     'before any setting is used, every setting it gives is used with its '
     'value, and no other file is read after it. A file that does not exist '
     'or cannot be read is an error, never silently replaced by the '
     'defaults.',
     ['configurations'], 'all configuration files',
     'Tests use the default file.',
     [U + 'config.py', M], [('settings', U + 'config.py'),
                            ('command line', M + ': run')],
     ['settings'], SPEC, 'proof', '')
prop('C32', 'Every module of the package can be imported from the package',
     'Every import and every name taken from another module of the program '
     'exists there, whatever the working directory, and every global name '
     'a function uses exists.',
     ['programs'], 'all modules, all import statements and attribute uses',
     'Tests import some modules, with their folder on the path.',
     ['.'], [('imports', 'import statements of all modules')], ['imports'],
     'name resolution over the syntax trees of all modules', 'proof', '')
prop('C33', 'Different land-cover classes have different codes',
     'The pre-processor gives every land-use record the code 100 times its '
     'settlement (Major CBD 1, City 2, Urban 3, Large Town 4, Small Town 5, '
     'anything else 0) plus its land use (Parkland 1, Primary Production 2, '
     'Education 4, Residential 5, Water 6, Other 7, Commercial 8, '
     'Industrial 9, Hospital/Medical 10, Transport 11, anything else 0), '
     'so that two classes never share a code; other fields stay. Places '
     'that are not towns do not count as settlements, and settlements of '
     'one type are one region. The code is what is rasterised, in a type '
     'that holds every code, on the grid of the topography. Files, fields '
     'and mask are those of the configuration.',
     ['inputs', 'configurations'],
     'all settlements and land uses, with and without a mask',
     'No test runs the pre-processor.',
     ['pre_process.py'],
     [('codes', 'pre_process.py: pre_process'),
      ('raster', 'pre_process.py: rasterize')],
     ['land-cover codes'], SPEC, 'proof',
     'Two records of each layer stand for all of them.')
prop('C34', 'Pixel sizes belong to the cell they are given for',
     'The width and the height in metres given for a cell are the distances '
     'on the WGS84 ellipsoid between its west and east borders along the '
     'middle of its row and between its north and south borders along the '
     'middle of its column; the grids of both hold these at the first, '
     'middle (half the number of cells) and last row and column and are '
     'bilinear in between, for grids of any shape. Positions are turned '
     'into longitude and latitude from the reference system of the raster.',
     ['inputs'], 'all grid shapes and geotransforms',
     'The test uses square grids.',
     [U + 'get_pixel_size_grid.py', U + 'blrb.py'],
     [('pixel sizes', U + 'get_pixel_size_grid.py: '
       'get_pixel_size_grids'), ('interpolation', U + 'blrb.py')],
     ['pixel sizes'], SPEC, 'proof', REAL + 'The distance itself is an '
     'uninterpreted symmetric function; rasters are in degrees.')
prop('C35', 'Reading, merging, cropping and joining shapefiles keeps every '
     'record',
     'Reading a shapefile gives every record that has a geometry once, in '
     'the order of the file, with its fields unchanged and beside its own '
     'geometry, and the description of the file; saving a layer writes every '
     'record once, in order, with its fields and geometry, under that '
     'description. Merging by a field leaves one record for every value of '
     'the field, with the union of exactly the geometries that had that '
     'value (records without a value are merged together). Cropping '
     'leaves, in order and with their fields, the records that share an '
     'area with the bounds of the mask, cut to these bounds. Joining a layer '
     'with regions gives every record the field of the region that shares '
     'the largest area with it, nothing when no region touches it, and '
     'leaves its other fields and the number and order of the records as '
     'they were, with a spatial index that answers with geometries or with '
     'positions.',
     ['inputs'], 'all fields and geometries; every pattern of up to three '
     'records read or saved, up to four records merged over two values and '
     'a missing one, and two records joined with two or three regions',
     'No test joins or merges layers.',
     [U + 'shapefiles.py'], [('reader', U + 'shapefiles.py'),
                             ('joining', U + 'shapefiles.py')],
     ['records'], SPEC, 'other', 'fiona, the spatial index, geometries and '
     'the pool of threads are replaced by stand-ins that give the answers '
     'of their documentation; the number of records is bounded.')
prop('C36', 'Every run starts from new, empty output folders',
     'Before the first tile is processed the output folder and its '
     'subfolders terrain, shielding, topographic, M3 and M3_max exist and '
     'hold nothing of an earlier run, whether there was a complete earlier '
     'run, a part of one, or none; none of these starts ends with an '
     'error over a folder. A file that cannot be removed ends the run '
     'rather than being passed over. Only the first process removes '
     'anything.',
     ['histories', 'configurations'],
     'a complete earlier run, part of one, none; one and two processes',
     'No test runs the main program.',
     [M], [('folders', M + ': run')], ['output folders before the tiles'],
     SPEC, 'other', '')
prop('C37', 'Each process has a log file of its own',
     'With several processes every process other than the first logs to a '
     'file named after its rank; the first and a single process use the '
     'configured name. When the folder of the log cannot be made the files '
     'are in the working directory, still one for each process. Nothing is '
     'logged before the log file is set.',
     ['configurations'], 'all ranks and numbers of processes',
     'Tests run one process.',
     [M, U + 'files.py'], [('log file', M + ': run')], ['log file names'],
     SPEC, 'proof', '')
prop('C40', 'Distances, directions and points follow Vincenty\'s formulae',
     'Distance and azimuths of two points are those of Vincenty\'s inverse '
     'formulae and the point at a distance and azimuth that of his direct '
     'formulae, repeated until the change of the estimate is below 1e-9 of '
     'it; azimuths lie within a full turn; points within 1e-8 radians of '
     'each other have distance zero; rounding cannot end the '
     'computation with an error. The points along a great circle are in '
     'equal steps, its ends among them, and are those of the sphere for a '
     'sphere.',
     ['inputs'], 'all ellipsoids and pairs of points; up to four points '
     'along a line',
     'Tests compare a few published distances.',
     [U + 'vincenty.py'],
     [('inverse formulae', U + 'vincenty.py: vinc_dist'),
      ('direct formulae', U + 'vincenty.py: vinc_pt'),
      ('points along a line', U + 'vincenty.py: GreatCircle')],
     ['distances', 'azimuths', 'points'], SPEC + '; a loop is compared by '
     'its first estimate, one pass from any estimate, and its condition',
     'proof', REAL + 'The argument of the inverse sine must be cut to '
     '-1 .. 1 in the source, which is what rounding needs. That the '
     'iteration ends and how accurate it is: see C39.')
prop('C39', 'The iteration of geodesic distances ends and is accurate',
     'Distance and azimuth between two points agree with the ellipsoid to '
     'the stated accuracy for every pair of points, and the iteration ends.',
     ['inputs'], 'all pairs of points',
     'Tests compare a few published distances.',
     [U + 'vincenty.py'], [('iteration', U + 'vincenty.py: vinc_dist')],
     ['distances'], na='The bound is on the result of a floating-point fixed '
     'point iteration (convergence of Vincenty\'s formula, with '
     'trigonometric functions); no sound static argument in reach bounds '
     'it. C40 decides that the formulae are the published ones.')
prop('C41', 'Every crest is paired with the valley it rises from',
     'Along an elevation line (elevations rounded down to metres) every '
     'cell that lies above the one before it and is not followed by a '
     'higher one is a crest, and the hill-shape multiplier is worked out '
     'for every crest, and for nothing else, with the last valley before '
     'it: the last cell before the crest from which the line rises and to '
     'which it does not rise. The multiplier of a cell is the largest of '
     'all the hills of its line, 1 where there is none.',
     ['inputs'], 'all heights of rises and falls, for every pattern of '
     'rises, falls and level steps of lines of up to seven cells (nine in '
     'the thorough tier)',
     'Tests use two engineered hills; plateaus, terraces and falls at the '
     'ends of a line are in no test.',
     [TP + 'findpeaks.py', TP + 'multiplier_calc.py'],
     [('crests and valleys', TP + 'findpeaks.py: findpeaks, findvalleys'),
      ('pairing', TP + 'multiplier_calc.py: multiplier_calc')],
     ['the hills worked out'],
     'abstract interpretation over sign patterns of unknown steps, compared '
     'with a reference specification', 'other',
     REAL + 'The length of a line is bounded, its heights are not.')


def main():
    have = {os.path.basename(f)[:-3].upper() for f in
            os.listdir(os.path.join(HERE, 'rules'))}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p['row'], ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['row']['id']
        if p['na'] or pid not in have:
            na.append(dict(property=pid, reason=p['na'] or
                           'check not built yet'))
            continue
        checks.append(dict(
            property=pid, quick_cmd='python3-vt check.py ' + pid,
            thorough_cmd='python3-vt check.py %s --thorough' % pid,
            technique=p['technique'], level=p['level'],
            level_note=p['note'] or REAL.strip()))
    man = dict(version=1, setup_cmd='true', checks=checks,
               not_applicable=na,
               notes='Checks read the source of /repo on every run; nothing '
               'of /repo is executed. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    import jsonschema
    sch = '/root/.vp/%s.schema.json'
    if os.path.exists(sch % 'MANIFEST'):
        jsonschema.validate(man, json.load(open(sch % 'MANIFEST')))
        s = json.load(open(sch % 'PROPERTIES'))
        for p in P:
            jsonschema.validate(p['row'], s)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
