"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py): one entry per property."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = ('on_numpy', 'on_jax', 'on_torch')


def fs(*names):
    return [f'meent/{b}/{n}' for b in B for n in names]


TMF, CMF, FDF = 'emsolver/transfer_method.py', 'emsolver/convolution_matrix.py', 'emsolver/field_distribution.py'
BASE, RC, MOD = 'emsolver/_base.py', 'emsolver/rcwa.py', 'modeler/modeling.py'
TESTS = 'The repository tests compare a handful of structures with other RCWA codes or between backends at fixed orders; '

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note='', technique=None, level='proof', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None),
                  _note=note, _tech=technique, _level=level, _na=na))


ALLCFG = 'every layer stack, index profile (lossless or absorbing), half-space index, incidence angle, polarisation, period, wavelength and truncation order, on each of the three backends'

prop('C01', 'Fields are matched at every interface',
     'The reflected and transmitted amplitudes of every diffraction order are exactly those for which the tangential electric and magnetic fields of the truncated Fourier expansion are continuous at the top surface, at every layer interface and at the substrate, when a single unit plane wave of the requested polarisation arrives from above and nothing arrives from below. This holds for classical 1D TE and TM, 1D conical and 2D calculations.',
     ['inputs', 'configurations'], ALLCFG,
     TESTS + 'a sign or factor that is invisible at the sampled angle, polarisation or symmetric structure passes them; the continuity equations quantify over all matrices and sizes.',
     fs(TMF), [('boundary rows of the half-spaces, layer recursion and final solve', 'transfer_*_1, transfer_*_3, transfer_*_4 (transfer_method.py)')],
     state=[('F, G, T', 'tangential E, tangential H and transmission operators carried from the substrate upwards', 'transfer_method.py')],
     observe=['result amplitudes R_s R_p T_s T_p of conv_solve'])
prop('C02', 'Layer modes solve the truncated Maxwell equations',
     'Inside every layer the field is a superposition of modes exp(+-k0 q z) that satisfy the Fourier-truncated Maxwell equations of that layer for its permittivity convolution matrices and the incident wave vector, with every mode decaying or propagating away from the interface it is referenced to. Uniform, patterned, lossless and absorbing layers all qualify, in the 1D TE, 1D TM, 1D conical and 2D formulations.',
     ['inputs', 'configurations'], 'every layer profile, wave vector and truncation order with a diagonalisable layer operator',
     TESTS + 'whether the eigenproblem is the right one for all convolution matrices (in particular asymmetric, absorbing and 2D ones) is a matrix identity over all inputs.',
     fs(TMF), [('layer eigenproblem', 'transfer_1d_2, transfer_1d_conical_2, transfer_2d_2, transfer_2d_wv (transfer_method.py)')],
     observe=['result of conv_solve', 'field cell of calculate_field'])
prop('C03', 'Layers stack in order and compose',
     'A structure is solved as the stack its thickness and cell arrays list from top to bottom, each layer with its own profile and thickness. Splitting a layer into two slices of the same profile, or inserting a layer of zero thickness, changes no reflected or transmitted amplitude, for any number of layers.',
     ['inputs', 'programs', 'configurations'], 'any number of layers, any thicknesses including zero, any profiles',
     TESTS + 'at most a few layers are used, mostly one; the recursion has to be right for every number of layers and any order.',
     fs(BASE, TMF), [('layer loop from the substrate to the top', 'solve_1d, solve_1d_conical, solve_2d (_base.py)'), ('layer recursion', 'transfer_*_3')],
     state=[('layer_info_list', 'modes and recursion matrices of each layer, substrate side first', '_base.py')],
     observe=['result of conv_solve'])
prop('C04', 'Polarisation states superpose linearly',
     'With a polarisation angle psi the returned amplitudes are sin(psi) times those of pure TE incidence plus cos(psi) times those of pure TM incidence, order by order. The separately reported TE-incidence and TM-incidence results of a conical or 2D calculation are independent of psi and equal the main result of a calculation run with that pure polarisation, and efficiencies follow from the amplitudes in all three results.',
     ['inputs', 'configurations'], 'every psi (or pol in [0, 1]) and every structure handled by the conical or 2D formulation',
     TESTS + 'mixed polarisation states and the per-incidence results are hardly looked at.',
     fs(TMF), [('source vector and te/tm blocks', 'transfer_1d_conical_4, transfer_2d_4')], observe=['result.res, result.res_te_inc, result.res_tm_inc'])
prop('C05', 'Efficiencies account for the energy',
     'Each order\'s efficiency is the z-directed power it carries relative to the incident power, computed from that order\'s amplitude: it is never negative, it is zero for evanescent orders of a lossless half-space, the total is the sum of its s and p parts, and the arrays are indexed by (y order, x order). For structures without absorption the reflected and transmitted efficiencies sum to one; with absorption they sum to at most one.',
     ['inputs', 'configurations'], ALLCFG,
     TESTS + 'energy conservation is asserted for few structures; sign, normalisation and order bookkeeping must hold for all angles and half-space indices.',
     fs(TMF), [('efficiency formulas', 'transfer_*_4 (transfer_method.py)')], observe=['de_ri, de_ti and their _s/_p parts'])
prop('C06', 'Diffraction orders obey the grating equation',
     'Order (m, n) has in-plane wave vector n_top sin(theta)(cos phi, sin phi) + (m lambda/period_x, n lambda/period_y), with orders listed from the most negative to the most positive, and in each half-space its vertical component is the square root of n^2 - kx^2 - ky^2 on the branch that propagates or decays away from the structure. This holds at every angle including normal and grazing incidence and for real and absorbing media.',
     ['inputs', 'configurations'], 'every theta, phi, period, wavelength, truncation and pair of half-space indices',
     TESTS + 'a wrong branch or order index shows only for particular combinations of angle, index and order.',
     fs(BASE, TMF), [('wave vectors', 'get_kx_ky_vector (_base.py)'), ('branch of kz', 'outgoing_kz, transfer_*_1')], observe=['which orders carry efficiency, phases of the amplitudes'])
prop('C07', 'Raster cells enter by the correct Fourier rules',
     'The permittivity n^2 of a raster cell enters the calculation through its Fourier coefficients of difference order (row order minus column order), with the inverse rule applied along x for the x field component, along y for the y component and to 1/eps for z (Li factorisation), each layer on its own. With discrete Fourier series the sampling is refined by whole-pixel repetition so that no needed order aliases, and neither repeating every pixel nor a circular shift of the cell changes any efficiency beyond round-off (shift) or the sampling refinement (repetition with continuous series: exactly nothing).',
     ['inputs', 'configurations'], 'every cell size, index values (real or complex), truncation orders, both Fourier types',
     TESTS + 'index conventions are invisible for symmetric or 1D cells and small truncation orders.',
     fs(CMF), [('convolution matrices', 'to_conv_mat_raster_discrete, to_conv_mat_raster_continuous, dfs2d, cfs2d, dfs1d, cfs1d, circulant')], observe=['result of conv_solve'])
prop('C08', 'Run compression of a cell loses nothing',
     'Merging equal neighbouring columns and rows of a raster cell into blocks reproduces exactly the same piecewise-constant profile: the block boundaries are the places where the cell changes, positions are normalised to the unit cell, and the continuous Fourier series of the blocks is the exact Fourier integral of the cell. Refining a raster by repeating pixels changes nothing.',
     ['inputs'], 'every raster cell, in particular cells with equal columns that are not adjacent, constant cells and single-pixel cells',
     TESTS + 'the compression loop must be right for every pattern of equal and unequal neighbours.',
     fs(CMF), [('cell compression', 'cell_compression'), ('continuous series', 'cfs2d, cfs1d')], observe=['result of conv_solve with fourier_type=1'])
prop('C09', 'Vector modelling paints objects in order',
     'A layer described by a base index and a list of rectangles or ellipses inside the unit cell is the profile in which later objects overwrite earlier ones inside their outline and the base index fills the rest. A rectangle is exact at multiples of 90 degrees and otherwise drawn as horizontal strips of the true mean width, an ellipse as rectangles spanned by points of its outline. The same picture given as an equivalent raster, or with its objects split, repeated or listed in an order that does not change overlaps, gives the same result.',
     ['inputs', 'programs'], 'every list of objects inside the cell: overlapping, touching each other or the cell border, nested, rotated, of any number, in any order',
     TESTS + 'only a few non-overlapping arrangements are drawn; overlap bookkeeping must be right for all edge coincidences and insertion orders.',
     fs(MOD), [('edge bookkeeping and painting', 'rectangle, ellipse, vector_per_layer_numeric, draw, modeling_vector_instruction')], observe=['modeling_vector_instruction output', 'result of conv_solve'])
prop('C10', 'Field maps are the solved fields',
     'The field cell returned for a solved structure contains, slice by slice from top to bottom and over one period in x and y, the electric and magnetic field of the solved modes: it is continuous with the incident plus reflected wave at the top and the transmitted wave at the bottom, its tangential components are continuous between layers, and shapes and sampling follow the requested resolution. The choice of algorithm for evaluating the map does not change the values.',
     ['inputs', 'configurations'], ALLCFG + ', and every resolution',
     TESTS + 'the fields are compared between a few implementations at fixed settings only.',
     fs(FDF, RC), [('field evaluation', 'field_dist_1d, field_dist_1d_conical, field_dist_2d (field_distribution.py)'), ('mode coefficients kept from the solve', 'layer_info_list, T1')], observe=['calculate_field, conv_solve_field'])
prop('C11', 'Material tables are interpolated faithfully',
     'Looking up a material at a wavelength returns n - ik from the tabulated data: exactly the table value at tabulated wavelengths, and the piecewise-linear interpolation of n and k between neighbours, for every material in the library; n and k are never exchanged or given the wrong sign. A wavelength outside the tabulated range is reported to the user by a warning and a wavelength inside never is.',
     ['inputs', 'configurations'], 'every material file and every wavelength',
     'No test evaluates the interpolation between samples or outside the range; the table is read at a few points at most.',
     fs(MOD), [('table reader', 'read_material_table'), ('interpolation', 'find_nk_index')], observe=['find_nk_index, put_permittivity'])
prop('C12', 'Dispersion models give the index they define',
     'A material given as a fitted model (the two Sellmeier forms, the two Brendel-Bormann oscillator forms, Falkovsky graphene) evaluates, at every wavelength, to the square root of the permittivity its coefficients define, returned as n - ik with non-negative k for passive models, identically on all backends and whether it comes from a library file or is given inline. Malformed or unknown models are refused, and evaluation outside the fitted range warns.',
     ['inputs', 'configurations'], 'every formula, coefficient set and wavelength',
     'Tests evaluate a few fitted materials at a few wavelengths.',
     ['meent/dispersion.py'] + fs(MOD), [('model evaluation', 'dispersion.evaluate'), ('header parser', 'dispersion.parse_header')], observe=['find_nk_index, put_refractive_index_in_ucell'])
prop('C13', 'Parameters mean the same however they are given',
     'Every accepted spelling of a parameter (scalar, list, tuple or array; pol or psi; integer or float cells; constructor argument or later assignment) describes the same simulation: pol p and psi = (1-p) pi/2 are interchangeable, a one-element order list means no y orders, a one-element period is used for both axes, and invalid values (pol outside [0,1], unknown types) are rejected rather than reinterpreted. Reading a parameter back returns the value in force.',
     ['inputs', 'configurations', 'histories'], 'every representation of every parameter, on every backend',
     TESTS + 'each parameter is mostly given in one spelling; the setters have separate branches per type.',
     fs(BASE, RC), [('property setters', '_BaseRCWA and RCWA* setters')], observe=['attributes of the solver object, result of conv_solve'])
prop('C14', 'Specialised formulations equal the general one',
     'The solver picks the 1D, conical or 2D formulation from the cell shape, azimuth, polarisation and orders, and where several apply they give the same efficiencies order by order: a one-row cell at zero azimuth gives the same answer with the azimuth left unspecified, given as zero, or with the row repeated to a 2D cell. A 1D grating rotated by 90 degrees in azimuth and cell gives the same efficiencies with the order axes exchanged.',
     ['inputs', 'configurations'], 'every 1D structure, polarisation and angle; every pair of applicable formulations',
     TESTS + 'the formulations are compared with each other only for a few structures.',
     fs(RC, TMF), [('dispatch', '_assign_grating_type, solve_for_conv'), ('three formulations', 'transfer_1d_*, transfer_1d_conical_*, transfer_2d_*')], observe=['result of conv_solve'])
prop('C15', 'Results depend only on the current parameters',
     'Solving is a function of the current parameter values: repeating a call, calling in another order, solving or computing fields of other structures in between, or assigning a parameter and assigning it back, gives the identical result, and a changed parameter takes effect on the next solve exactly as if the object had been built with it. The arrays and lists the caller passed in are never modified, and separate solver objects do not influence each other.',
     ['histories', 'inputs'], 'every sequence of assignments and solve, field and convolution calls on one or several solver objects',
     TESTS + 'each test builds a fresh object and calls it once.',
     fs(BASE, RC, MOD), [('per-call state reset', 'solve_1d, solve_1d_conical, solve_2d'), ('setters', '_base.py, rcwa.py'), ('vector instruction', 'modeling.py')],
     state=[('layer_info_list, T1, grating_type_assigned', 'state left by the last solve', '_base.py')], observe=['results of call sequences'])
prop('C16', 'The three backends compute the same thing',
     'For the same parameters the NumPy, JAX and PyTorch backends give the same efficiencies, order by order, and the same convolution matrices, wave vectors and material data up to round-off; NumPy and JAX also give the same amplitudes and fields. Options that only select a numerical method (pseudo-inverse, precision) change results by no more than that method\'s accuracy.',
     ['inputs', 'configurations'], ALLCFG,
     TESTS + 'agreement is sampled at a few structures with fixed options.',
     fs(TMF, CMF, FDF, BASE, RC), [('three parallel implementations', 'meent/on_numpy, on_jax, on_torch')], observe=['call_mee(backend=...).conv_solve()'])
prop('C17', 'Gradients are the derivatives of the result',
     'With the JAX and PyTorch backends, automatic differentiation of any efficiency with respect to cell indices, thicknesses, angles, polarisation, wavelength, period, half-space indices or object geometry returns the derivative of the value the same call computes, finite and equal to the limit of difference quotients, for absorbing and lossless structures with distinct layer modes and, for drawn objects, distinct edges inside the cell. grad() returns this gradient however often it is called, and a step of fit() moves the parameters along it.',
     ['inputs', 'configurations'], 'every differentiable parameter and every structure with simple layer eigenvalues',
     TESTS + 'gradients are compared at single points; the eigen-decomposition and pseudo-inverse rules must be right for all matrices.',
     ['meent/on_jax/emsolver/primitives.py', 'meent/on_torch/emsolver/primitives.py'] + fs(TMF), [('custom differentiation rules', 'Eig, eig (primitives.py)'), ('pseudo-inverse rule', 'meeinv')], observe=['gradients through conv_solve'])
prop('C18', 'Anisotropic cells reduce to the isotropic case',
     'With the PyTorch backend a diagonally anisotropic cell (nx, ny, nz) whose three indices coincide gives the result of the isotropic cell, and in general each index acts only on its own field component, through the Fourier rule of that component: for a cell that varies along one axis only, exchanging the x and y axes of structure, indices and incidence exchanges the orders and leaves efficiencies unchanged, and for a one-row cell without azimuth TE depends on ny alone and TM on nx and nz alone. Lossless anisotropic structures conserve energy.',
     ['inputs', 'configurations'], 'every anisotropic raster or vector structure, angle and polarisation',
     'The few anisotropic tests use simple films; which index enters which Fourier rule must be right for all patterned cells.',
     ['meent/on_torch/emsolver/convolution_matrix.py', 'meent/on_torch/modeler/modeling.py', 'meent/on_torch/emsolver/rcwa.py'], [('per-component permittivity', 'to_conv_mat_raster_continuous, to_conv_mat_raster_discrete, to_conv_mat_vector (torch)')], observe=['result of conv_solve'])
json.dumps(P)

SET = 'test -x /opt/venv/bin/python && /opt/venv/bin/python -c "import numpy, torch, jax"'
TECH = ('contracts on the real functions: postconditions proved for all inputs and sizes by symbolic execution of the code objects extracted '
        'from /repo on every run (rewriting engine + z3), the same contracts evaluated on real executions, and a bounded API-level search for a failing input')


PENDING = set()


def main():
    done = [p for p in P if os.path.exists(f'{ROOT}/contracts/{p["id"].lower()}.py') and p['id'] not in PENDING]
    with open(f'{ROOT}/properties.jsonl', 'w') as f:
        for p in done + [p for p in P if p not in done and p['_na']]:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = [dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]} quick', thorough_cmd=f'./check.sh {p["id"]} thorough',
                   technique=p['_tech'] or TECH, level=p['_level'],
                   level_note=p['_note'] or NOTES.get(p['id'], 'see DESIGN.md')) for p in done]
    m = dict(version=1, setup_cmd=SET, checks=checks, not_applicable=[dict(property=p['id'], reason=p['_na']) for p in P if p['_na'] and p not in done],
             notes='No hooks in /repo: the checks import the package from /repo\'s working tree. See DESIGN.md.')
    with open(f'{ROOT}/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)


NOTES = {
 'C01': 'Proved for all sizes and values of the transfer_*_1/_3/_4 functions of all three backends, real/complex arithmetic taken as exact; end-to-end comparison with an independent reference solver is bounded.',
 'C02': 'Proved for all sizes and values of the layer-mode functions; assumes eig returns an exact eigen-decomposition with invertible eigenvector matrix; end-to-end part bounded.',
 'C03': 'Loop invariant of the three drivers proved for any number of layers; layer composition proved for all sizes; end-to-end part bounded.',
 'C04': 'Superposition and the per-incidence blocks proved for all sizes and values of transfer_1d_conical_4 and transfer_2d_4; comparison of whole runs bounded.',
 'C05': 'Each efficiency proved to be the z-flux of its amplitude, with signs and sums; the energy balance of complete structures (sum to one, at most one with absorption) proved as lemmas over the contracts of transfer_*_1 to _4, for all sizes and numbers of layers; energy sums of real results evaluated (bounded).',
 'C06': 'Wave vectors and the kz branch proved for all orders, indices and theta < pi/2; grazing incidence evaluated (bounded).',
 'C07': 'Convolution matrices proved element by element for all cell sizes, orders and numbers of layers, assuming the contracts of fft and inv; invariance of efficiencies bounded.',
 'C08': 'Both run-length loops proved by invariant for every pattern of equal neighbours, and the series of the blocks proved to be the Fourier integral; end-to-end part bounded.',
 'C09': 'Rectangle outline proved for all parameters and strip counts; painting proved for all real edges of up to two objects (bounded in the number of objects, labelled so); ellipse and longer lists evaluated.',
 'C10': 'Field evaluation functions proved for all orders, resolutions and numbers of layers; calculate_field and conv_solve_field evaluated at every sample point of random structures (bounded).',
 'C11': 'Reader and look-up proved for symbolic tables, assuming the contract of interp; every library table evaluated.',
 'C12': 'Sellmeier and Brendel-Bormann forms, parser and refusals proved for symbolic coefficients; the graphene integral evaluated against independent quadrature (bounded).',
 'C13': 'Setters and constructors proved for all values of every accepted type; equality of whole results bounded.',
 'C14': 'Lifting of 1D solutions to the conical and 2D contracts and the dispatch proved; repeated rows with y orders bounded.',
 'C15': 'Call-by-call equality with a fresh object proved for arbitrary past state, frame of every function by effect analysis; random histories bounded.',
 'C16': 'Relational proofs between the real functions of two backends, independence of mode normalisation proved; round-off and precision options bounded.',
 'C17': 'Custom differentiation rules proved for all matrices with simple eigenvalues, no parameter detached; AD against difference quotients bounded. Library autodiff assumed.',
 'C18': 'Per-component Fourier rules proved for all anisotropic cells; axis exchange and energy bounded.',
}
if __name__ == '__main__':
    main()
