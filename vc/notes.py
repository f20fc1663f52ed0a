# per-property notes of MANIFEST.json; executed by manifest.py
_ASSUMED = ' Assumed: see "trusted_base" and "assumptions" in the evidence (integers and reals are mathematical).'
_WHAT = {
    'C01': 'Index, strides, injectivity, surjectivity and element access, for any lengths, in dimensions 0 to 4 and in '
           'variable dimension 2 and 3.',
    'C02': 'at() accepts exactly the valid indices and positions, of dimensions 1 to 5 and variable 2, 3, 5; memory safety.',
    'C03': 'begin, successor and end of box iterators (ranks), whole loops in dimensions 1 to 4 and variable 2 and 3, for '
           'any box. Bounded only: whole loops in dimensions 5 and variable 4.',
    'C04': 'Every operation of boxes, for any bounds, in dimensions 1 to 4 and variable 2 and 3.',
    'C05': 'Partition in dimensions 1, 2, 3 and variable 2, for any box and margin. Bounded only: dimensions 4 and variable 3.',
    'C06': 'Slices and sections of any lengths, dimensions 1 to 4 and variable 2 and 3.',
    'C07': 'Iterators of subrasters (ranks), reads and writes of whole loops, for any region, dimensions 1 to 4 and variable 1 '
           'to 3. Bounded only: executions of the same with other item types (row_*, loop_*).',
    'C08': 'Constructors, copies, moves and equality for any size and content. Bounded only: holders other than vectors, '
           'pointers and aligned buffers, conversions to other containers.',
    'C09': 'Each operation of aligned buffers for any size and alignment, with releases tracked. Bounded only: random sequences '
           'of operations (the single steps are proved from any state).',
    'C10': 'Each operation at an arbitrary index, for any size. Bounded only: agreement of math functions with the C library '
           '(the proofs show that they are applied element-wise), extrema and integers in other types.',
    'C11': 'Any position and shape, in dimensions 1 to 3 and variable 2. Bounded only: dimension 4.',
    'C12': 'Any real position and shape; reals are mathematical. Bounded only: cubic in dimension 3, integer pixels.',
    'C13': 'Whole correlations at every pixel for any image, with windows of given size, in dimensions 1 and 2, with constant, '
           'nearest and periodic borders; kernels of any window. Bounded only: correlations by other windows, dimensions and types.',
    'C14': 'Contiguous and strided samples for any line, stride, step and origin, kernels of 1 to 5 elements; whole '
           'correlations along each axis in dimensions 1 to 3; composition of two kernels along two axes. Bounded only: '
           'kernels of other sizes, longer compositions, float types.',
    'C15': 'Any front, back, step and stride. to_vector and data_vector (constructor of std::vector from iterators) are '
           'undecided, and executed within bounds.',
    'C16': 'Windows of 1 to 9 neighbors, any image, dimensions 1 to 3 and variable; std::nth_element is assumed to follow the '
           'standard. Bounded only: other windows and types.',
    'C17': 'Mean, variance, sum for any size; order statistics for 1 to 5 values; histograms of any values with 1 to 4 bins. '
           'Bounded only: sequences of requests on larger data.',
    'C18': 'Bounding box, first position, successor and end of the iteration, for any radius and center, L1 and L2, dimensions '
           '1 to 3. By induction the iteration visits exactly the positions of the ball. Bounded only: dimension 4, size().',
    'C19': 'Shapes and sizes of the buffers, sharing and normalization for any shape, dimensions 1 to 3. FFTW is assumed to '
           'use buffers as documented. Bounded only: values of the transforms.',
    'C20': 'Each request from any reachable state of a pipeline with 7 steps of each kind of prerequisites (a fixed graph). '
           'The trees of std::map and std::set are modelled. Bounded only: sequences of requests.',
    'C21': 'Any clock values, offset and numbers of increments given by the contract (1 to 3). Bounded only: statistics of more '
           'increments, machine floats.',
    'C22': 'Any value, dimensions 1 to 5 and variable. Bounded only: float coordinates with infinities.',
    'C23': 'Draws are the draws of the standard distributions with the same states and parameters, for any value, parameters '
           'and seed; the distributions and the Mersenne twister of the standard library are assumed. Bounded only: sequences '
           'of draws, values in containers.',
    'C24': 'Round trip for any shape and content, for each pixel type and holder; CFITSIO is assumed to store images of a type '
           'which holds the values exactly. Bounded only: executions with the real CFITSIO in a temporary folder.',
    'C25': 'Round trip for any shape and content in dimensions 1 to 3, by plans and functions; FFTW is assumed to give back the '
           'values times their number. Bounded only: executions with the real FFTW.',
}
NOTES = {k: 'Proved: ' + v + _ASSUMED for k, v in _WHAT.items()}
