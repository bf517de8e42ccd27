"""Property texts (source of properties.jsonl and MANIFEST.json)."""
ABS = ('Decided by abstract interpretation of the current source over exact rational-function value numbers; '
       'floating-point rounding is not modelled; obligations the engine cannot decide are listed as undecided in the evidence.')
FE = 'simulators/fetorch/'
HY = 'model_architectures/hybrid_base_model/model/'
PROPS = [
    dict(id='P01', title='Element shape functions interpolate and match their derivatives',
         statement='For every finite element type and every local point, the shape functions sum to one, equal one at '
                   'their own node and zero at every other node, and reproduce linear fields; there is one function per node. '
                   'The local derivative table is, entry by entry, the derivative of the shape functions that are evaluated.',
         over=['inputs', 'configurations'], text='every element type, every shape function, every local coordinate',
         why='Tests evaluate a few elements at a few points; the identities must hold as polynomials for all local coordinates and all node pairs.',
         files=[FE + 'element/type/'],
         mech=[('eval_shapefun / eval_shapefun_local_deriv of each element', FE + 'element/type/')],
         observe=['ElementType.eval_shapefun', 'ElementType.eval_shapefun_local_deriv'],
         technique='abstract interpretation to exact polynomial value numbers, identities decided formally',
         note='All points, nodes and directions of every element type. ' + ABS),
    dict(id='P02', title='Gauss quadratures integrate exactly and are labelled consistently',
         statement='Every Gauss quadrature offered for an element has the requested number of distinct points inside the '
                   'reference domain, positive weights that sum to the domain volume, and integrates all monomials up to the '
                   'degree of the rule exactly. The dictionary form and the batched form of an element\'s Gauss points '
                   'list the same points and weights in the same order.',
         over=['inputs', 'configurations'], text='every domain, every admissible number of points, every monomial of the rule\'s degree, every element type',
         why='Tests compare no integral; a swapped point/weight pair or a wrong digit only shows in some integrands.',
         files=[FE + 'element/type/quadratures.py', FE + 'element/type/interface.py', FE + 'element/type/'],
         mech=[('gauss_quadrature', FE + 'element/type/quadratures.py'), ('get_batched_gauss_integration_points', FE + 'element/type/interface.py')],
         observe=['gauss_quadrature', 'ElementType.get_gauss_integration_points'],
         technique='abstract interpretation to exact constants, monomial moments decided in exact arithmetic',
         note='Decimal literals of irrational constants are accepted within 1e-9 relative. ' + ABS),
    dict(id='P03', title='Kelvin matricial form is an exact, reversible encoding of tensors',
         statement='For every second- and fourth-order tensor with minor symmetries, in 2D and 3D and for every admissible component order, the matricial '
                   'form holds each component at its place with the Kelvin weights (square root of two per shear index), converting back '
                   'returns the tensor, and contracting matricial forms equals contracting the tensors. The vectorised conversions, the 2D/3D state reductions and expansions '
                   'and the loop-based conversions agree entry by entry.',
         over=['inputs', 'configurations'], text='every tensor, problem dimension, component order, loop-based and vectorised variant',
         why='Tests touch only Voigt helpers; a misplaced weight shows only for shear components or permuted component orders.',
         files=[FE + 'math/matrixops.py'],
         mech=[('get_tensor_mf, get_tensor_from_mf, vget_tensor_mf, ...', FE + 'math/matrixops.py')],
         observe=['get_tensor_mf', 'get_tensor_from_mf', 'vget_tensor_mf', 'vget_tensor_from_mf'],
         technique='abstract interpretation on unrestricted tensor entries, entrywise value-number identities',
         note='Component orders: canonical and permuted ones are enumerated, entries unrestricted. ' + ABS),
    dict(id='P04', title='Voigt notation conversions are work conjugate and exact',
         statement='Converting strain from Voigt notation halves engineering shear strains and converting stress to Voigt notation keeps '
                   'components unchanged, each at its place in the component order, so that stress power is the same in both notations. '
                   'The batched conversions return what the loop-based ones return, and volumetric and deviatoric projections split a strain into '
                   'complementary, orthogonal parts.',
         over=['inputs', 'configurations'], text='every strain/stress tensor, dimension and component order',
         why='Tests convert a couple of tensors with fixed component order.',
         files=[FE + 'math/voigt_notation.py', FE + 'math/'],
         mech=[('get_strain_from_vfm, get_stress_vfm and vectorised variants', FE + 'math/voigt_notation.py')],
         observe=['get_strain_from_vfm', 'get_stress_vfm'],
         technique='abstract interpretation on unrestricted entries, entrywise value-number identities',
         note='Component orders enumerated (canonical and permuted), entries unrestricted. ' + ABS),
    dict(id='P05', title='Element strains and internal forces follow the nodal displacements',
         statement='For every element, node positions and displacements, the discrete gradient operators turn nodal displacements into the (symmetric) gradient of '
                   'the interpolated displacement field, the Jacobian is the derivative of position with respect to local coordinates, and the internal force of an '
                   'element is the quadrature sum of weight times transposed gradient operator times stress times Jacobian determinant. '
                   'Loop-based and vectorised forms agree.',
         over=['inputs', 'configurations'], text='every element type, node coordinates, displacement field and stress state',
         why='Tests check derivative tables on sample elements only, never forces or strains.',
         files=[FE + 'element/derivatives/', FE + 'element/integrations/'],
         mech=[('build_discrete_sym_gradient, eval_shapefun_deriv, jacobian', FE + 'element/derivatives/'),
               ('internal_forces', FE + 'element/integrations/')],
         observe=['eval_shapefun_deriv', 'build_discrete_sym_gradient', 'compute_element_internal_forces'],
         technique='abstract interpretation on unrestricted coordinates and displacements, identities decided formally',
         note=ABS),
    dict(id='P06', title='Tensor product operators compute their index formulas',
         statement='Each tensor product, contraction and identity operator returns, for every admissible pair of tensors, exactly the components of its '
                   'index formula, and the derivative of the inverse of a symmetric second-order tensor is the derivative of the inverse. '
                   'The identity operators act on any second-order tensor as identity, transposition, symmetrisation, trace or deviatoric projection.',
         over=['inputs'], text='every tensor of dimension 2 and 3',
         why='No test reaches this module; a transposed index pair is invisible on symmetric or diagonal samples.',
         files=[FE + 'math/tensorops.py'],
         mech=[('dyad*, dot*, ddot*, get_id_operators, diso_*', FE + 'math/tensorops.py')],
         observe=['get_id_operators', 'dyad22', 'dot24_1', 'ddot44_1'],
         technique='abstract interpretation on unrestricted entries, entrywise index-formula identities',
         note=ABS),
    dict(id='P07', title='Elastic constitutive laws are the linear law of their moduli',
         statement='For every elastic symmetry the elasticity matrix is symmetric and has exactly the entries its moduli define, and technical constants '
                   'convert to moduli by the standard relations. The elastic state update returns strain plus increment and '
                   'stress equal to elasticity times total strain (with the out-of-plane stress of plane strain), with the elasticity as tangent.',
         over=['inputs', 'configurations'], text='every elastic symmetry, admissible moduli, strain increment and previous state, 2D plane strain and 3D',
         why='No test calls constitutive models.',
         files=[FE + 'material/models/standard/elastic.py', FE + 'material/models/interface.py'],
         mech=[('Elastic.elastic_tangent_modulus, state_update', FE + 'material/models/standard/elastic.py')],
         observe=['Elastic.elastic_tangent_modulus', 'Elastic.state_update'],
         technique='abstract interpretation on unrestricted moduli and strains, entrywise identities',
         note=ABS),
    dict(id='P08', title='Hardening laws return a yield stress together with its own slope',
         statement='For every isotropic or kinematic hardening law the returned slope is the derivative of the returned stress with respect to accumulated plastic '
                   'strain. The piecewise-linear law passes through its data and stays constant outside it, the linear law is affine, negative plastic strains act as zero, '
                   'and every offered law name resolves to its own law.',
         over=['inputs', 'configurations'], text='every law, admissible parameters and accumulated plastic strain',
         why='No test reaches the hardening laws; the slope only matters for Newton convergence and tangents.',
         files=[FE + 'material/models/standard/hardening.py'],
         mech=[('get_hardening_law and the laws', FE + 'material/models/standard/hardening.py')],
         observe=['get_hardening_law'],
         technique='abstract interpretation with formal differentiation',
         note='The slope exactly at the kinks of the piecewise-linear law is excluded (one-sided by nature). ' + ABS),
    dict(id='P09', title='Plastic return mapping yields an admissible, consistent state',
         statement='For every strain increment and admissible previous state, the plasticity state updates (von Mises, mixed hardening, Drucker-Prager; loop-based and vectorised) '
                   'advance total strain by the increment, return stress by the elastic law, leave plastic variables unchanged on elastic steps, and on plastic steps follow '
                   'the flow and hardening rules to a state on the yield surface. The step is elastic exactly when the trial state is inside the yield surface, and the returned '
                   'tangent is the derivative of the returned stress. A step that fails to converge is reported, never returned as a valid state.',
         over=['inputs', 'histories'], text='every strain increment, previous state, hardening law, 2D plane strain and 3D',
         why='No test calls a return mapping; a wrong tangent or hardening coefficient still produces plausible stresses.',
         files=[FE + 'material/models/standard/', FE + 'material/models/vmap/'],
         mech=[('state_update of VonMises, VonMisesMixed, DruckerPrager and VMAP variants', FE + 'material/models/')],
         observe=['VonMises.state_update', 'VonMisesMixed.state_update', 'DruckerPrager.state_update', 'VMAP variants'],
         technique='abstract interpretation with gated value numbers and formal implicit differentiation of the Newton fixpoint',
         note='Hardening laws are uninterpreted functions with their slopes; Newton convergence itself (a runtime quantity) is not decided. Poisson ratio sampled at rational values in the quick tier. ' + ABS),
    dict(id='P10', title='A material state update has no effect beyond the state it returns',
         statement='Every constitutive state update leaves the previous state, the strain increment and the model parameters unchanged and leaves the global default '
                   'floating-point precision as it found it. It returns a state with exactly the variables, shapes and precision of the initial state, whose initial values describe an '
                   'undeformed material, and a tangent of matching shape and precision. Converting the entries of a (nested) dictionary to tensors or to another precision converts every '
                   'entry, keeps all keys, and modifies its input only when asked to.',
         over=['inputs', 'histories', 'configurations'], text='every model, dimension, precision, previous state and increment; every nested dictionary',
         why='Side effects on shared state only show several time steps later or in other elements; no test calls a state update.',
         files=[FE + 'material/models/', 'utilities/type_conversion.py'],
         mech=[('state_update / state_init of every model', FE + 'material/models/'), ('convert_dict_to_tensor, convert_tensor_dict...', 'utilities/type_conversion.py')],
         observe=['ConstitutiveModel.state_init', 'ConstitutiveModel.state_update', 'utilities.type_conversion'],
         technique='abstract interpretation with an alias-aware store: effect and frame analysis over value numbers',
         note='Precision is tracked as an abstract dtype. An update that raises is not covered. ' + ABS),
    dict(id='P11', title='Mesh assembly, extraction and configurations are consistent',
         statement='For every mesh connectivity, extracting element values from a global nodal array and assembling element values back place every degree of freedom at its global index, '
                   'and assembly adds the contributions of all elements sharing a node (dictionary-based and vectorised forms agree). '
                   'The initial, last-converged and current configurations and material states are independent copies: updating one time never alters another unless requested, '
                   'and inputs of the wrong shape or time are rejected.',
         over=['inputs', 'histories', 'configurations'], text='every connectivity (including repeated and out-of-order nodes), nodal values and update sequence',
         why='The one mesh test samples small meshes; aliasing between times needs multi-step histories.',
         files=[FE + 'structure/structure_mesh.py', FE + 'structure/'],
         mech=[('StructureMesh', FE + 'structure/structure_mesh.py'), ('StructureMaterialState', FE + 'structure/')],
         observe=['StructureMesh', 'StructureMaterialState'],
         technique='abstract interpretation with an alias-aware store over unrestricted nodal values',
         note='Connectivities are enumerated over small meshes that contain every sharing pattern of two and three elements; nodal values unrestricted. ' + ABS),
    dict(id='P12', title='The force-equilibrium loss measures the residual forces of the specimen',
         statement='For every mesh, displacement and reaction history and material response, the loss of the material model finder is the scaled, time-weighted sum over time of squared residual forces: '
                   'assembled internal minus external minus, on constrained degrees of freedom only, reaction force; with Dirichlet sets, residuals of a set are summed before squaring. '
                   'All computation modes give the same loss, hand each Gauss point its own strain path (normalised exactly when the model expects it), and report components, set reactions and local '
                   'strain-stress paths consistent with it. Inconsistent specimen data, weights or labels and NaN forces are refused.',
         over=['inputs', 'histories', 'configurations'], text='every specimen mesh, history, weights, labels, loss type and sequential mode',
         why='No test reaches the finder; a transposed index or a missed weight still gives a finite, decreasing loss.',
         files=['material_model_finder/model/material_discovery.py', 'material_model_finder/data/specimen_data.py'],
         mech=[('MaterialModelFinder.forward and helpers', 'material_model_finder/model/material_discovery.py'), ('SpecimenNumericalData', 'material_model_finder/data/specimen_data.py')],
         observe=['MaterialModelFinder.forward', 'SpecimenNumericalData'],
         technique='abstract interpretation with unrestricted histories and an unrestricted stand-in material, identity of the loss polynomial',
         note='Meshes of one to eleven elements with rational coordinates (four element types); histories of two or three steps; force normalisation with symmetric bounds. ' + ABS),
    dict(id='P13', title='Data scaling is an invertible map of the fitted statistics',
         statement='For every features tensor, normalising maps each feature by its own fitted statistics (minimum and maximum to the norm bounds, mean to zero and standard deviation to one), '
                   'denormalising undoes it exactly, and both keep shape, precision and the input tensor. Statistics fitted from a tensor or dataset are those of all samples and time steps of the requested features, and '
                   'a model always uses the scaler of the requested features and direction and saves it with its initialisation file. Unfitted scalers and mismatching shapes or names are refused.',
         over=['inputs', 'configurations'], text='every features tensor in 2D or 3D layout, scaling type, statistics with distinct extremes',
         why='No test touches scaling; swapped statistics or scalers give plausible numbers.',
         files=['utilities/data_scalers.py', 'utilities/fit_data_scalers.py', 'model_architectures/procedures/model_data_scaling.py'],
         mech=[('TorchMinMaxScaler, TorchStandardScaler', 'utilities/data_scalers.py'), ('data_scaler_transform, fit_data_scalers, set_fitted_data_scalers', 'model_architectures/procedures/model_data_scaling.py'),
               ('mean_std_batch_fit, min_max_batch_fit', 'utilities/fit_data_scalers.py')],
         observe=['TorchMinMaxScaler', 'TorchStandardScaler', 'data_scaler_transform', 'fit_data_scalers'],
         technique='abstract interpretation on unrestricted entries and statistics, entrywise value-number identities',
         note='The minima and maxima of a fit are decided on enumerated orderings, everything else on unrestricted entries; scikit-learn incremental statistics are taken as specified. ' + ABS),
    dict(id='P14', title='A hybrid model is exactly the composition its submodel layout declares',
         statement='For every layout of hybridized models, the hybrid model applies the models of a channel in the order of their column index, channels in the order of their row index, '
                   'feeds each the previous output (with the input features appended exactly when it has an input residual connection), normalises its input and denormalises its output exactly when that submodel expects it, '
                   'and combines channels by the requested hybridization. Two models at one position, missing scalers, unknown names and wrong feature numbers are refused. '
                   'The built-in layers compute linear elasticity of the elastic strain for the requested symmetry, the volumetric plus deviatoric composition and a per-feature polynomial, '
                   'for batched and unbatched sequences alike, without changing their input.',
         over=['inputs', 'configurations'], text='every features tensor, hybridization layout, residual and normalisation flags, submodel map',
         why='No test builds a hybrid model; a wrong order or a missing denormalisation still gives tensors of the right shape.',
         files=[HY + 'hybrid_model.py', HY + 'hybridization.py', HY + 'hybridized_model.py', HY + 'hybridized_layers.py', HY + 'transfer_learning.py'],
         mech=[('HybridModel.get_hybridization_channels, HybridModel.forward', HY + 'hybrid_model.py'), ('set_hybridized_model', HY + 'hybridized_model.py'),
               ('BatchedElasticModel, VolDevCompositionModel', HY + 'hybridized_layers.py'), ('PolynomialLinearRegressor', HY + 'transfer_learning.py')],
         observe=['HybridModel', 'set_hybridized_model', 'BatchedElasticModel', 'VolDevCompositionModel', 'PolynomialLinearRegressor'],
         technique='abstract interpretation with unrestricted affine stand-in submodels, output value number identifies the composition',
         note='Layouts of one to four submodels are enumerated (every ordering pattern of rows and columns); features and submodel coefficients unrestricted. ' + ABS),
    dict(id='P15', title='Time series data set operations keep every sample with its own data',
         statement='For every data set, stored or in memory: batches hold each sample\'s own history along the batch dimension and no sample is dropped; concatenating, summing (with weights, unit by default), '
                   'relabelling and initialising features changes exactly the named feature of every sample; adding, removing, copying and splitting act on exactly the listed samples, a split uses the requested '
                   'proportions and seed and gives each name its own subset, and a requested copy is independent. Saving then loading, and moving a stored data set to a new directory, preserve its samples. '
                   'Unknown features, missing files or directories and invalid proportions are refused, leaving the data set as it was.',
         over=['inputs', 'histories', 'configurations'], text='every data set, feature labels and weights, index list, proportions and seed',
         why='No test touches data sets; misplaced samples or stale directories only show as poor training results.',
         files=['time_series_data/time_dataset.py'],
         mech=[('TimeSeriesDataset, TimeSeriesDatasetInMemory, time_collator, split_dataset', 'time_series_data/time_dataset.py')],
         observe=['TimeSeriesDataset', 'TimeSeriesDatasetInMemory', 'time_collator', 'split_dataset', 'load_dataset', 'save_dataset'],
         technique='abstract interpretation over an abstract file system with samples of unrestricted entries',
         note='Data sets of one to four samples; random_split and DataLoader are taken as specified by PyTorch. ' + ABS),
    dict(id='P16', title='Stored model states and records are recovered exactly and never lost',
         statement='Saving a model or training state writes it under the name of its kind and epoch; exactly the superseded states of the same model are removed (later epochs when requested, the previous best state), '
                   'any other file keeps its content. Loading the initial, a given, the last or the best state loads exactly that state and returns its epoch; a missing, ambiguous or unfitting state is refused and '
                   'nothing is removed. A model rebuilt from its initialization file, also in a moved directory, has every initialization argument and its fitted data scalers. Loss, learning rate and parameter '
                   'records and sample predictions read back as saved. New output directories and files never replace existing ones unless overwriting is requested.',
         over=['histories', 'configurations'], text='every stored set of states, state kind, epoch, removal choice, model class and its arguments',
         why='No test saves or loads a model; loss of a state or a silently changed option shows only when a long training is resumed.',
         files=['model_architectures/procedures/model_state_files.py', 'model_architectures/procedures/model_training.py', 'model_architectures/procedures/model_prediction.py',
                'model_architectures/rnn_base_model/model/gru_model.py', 'model_architectures/rc_base_model/model/recurrent_model.py',
                'model_architectures/hybrid_base_model/model/hybrid_model.py', 'ioput/iostandard.py'],
         mech=[('save_model_state, load_model_state, remove_posterior_state_files', 'model_architectures/procedures/model_state_files.py'),
               ('save_training_state, save_loss_history', 'model_architectures/procedures/model_training.py'),
               ('save_model_init_file, init_model_from_file', 'model_architectures/rc_base_model/model/recurrent_model.py')],
         observe=['save_model_state', 'load_model_state', 'save_training_state', 'init_model_from_file', 'read_loss_history_from_file', 'make_directory'],
         technique='abstract interpretation over an abstract file system with unrestricted state contents',
         note='Up to four stored epochs, including ones whose lexical and numeric order differ; torch.save, torch.load and pickle are taken as exact. ' + ABS),
    dict(id='P17', title='Learnable material parameters drive the recurrent constitutive model',
         statement='Every learnable parameter starts at its given value, is scaled between its bounds and -1..1 by exactly inverse maps, is clipped to its bounds (and to the convex boundary where required) and nothing else '
                   'moves it. On every forward pass each parameter reaches exactly its own material parameter (and quantities derived from it) in physical scale with its gradient intact; the response never uses a replaced '
                   'value; parameters of another material are refused. The response of each strain path at each time is the material state update accumulated over the strain increments of that path only, stresses first and '
                   'then the requested state features in order, alike for batched and single paths and both integration variants; the response is null at the first time; a failed or undefined state update is refused when '
                   'checking is on. Vectorised state updates use no data-dependent control flow.',
         over=['inputs', 'configurations'], text='every material model, set of learnable parameters, values, bounds, strain paths, batch size and requested state features',
         why='Parameter discovery silently converges to wrong values when a parameter is misrouted, detached or scaled wrongly; no test trains a recurrent constitutive model.',
         files=['model_architectures/rc_base_model/model/recurrent_model.py'],
         mech=[('sync_material_model_parameters, transform_parameter, enforce_parameters_bounds', 'model_architectures/rc_base_model/model/recurrent_model.py'),
               ('forward, _compute_stress_path, _vcompute_stress_path', 'model_architectures/rc_base_model/model/recurrent_model.py')],
         observe=['RecurrentConstitutiveModel.forward', 'get_material_model_parameters', 'get_detached_model_parameters', 'enforce_parameters_bounds'],
         technique='abstract interpretation with value numbering; values cut from the gradient graph and the state update are uninterpreted',
         note='Up to 4 times and 3 paths, 2D and 3D; distinct bounds. ' + ABS),
    dict(id='P18', title='Gated recurrent network computes the gated recurrent unit equations',
         statement='The custom recurrent cell and stacked network produce, for every weight, input and initial hidden state, the gated recurrent unit update layer by layer and time by time, for single and batched samples alike '
                   '(null hidden state when none is given); a sample never influences another, mapping over samples agrees with batching, gradients reach weights, inputs and hidden state, and the model applies its output layer '
                   'to every time and returns the final hidden state of every layer. All weights are initialised within one over the root of the hidden size.',
         over=['inputs'], text='all weights, inputs, hidden states, layer numbers, sequence lengths and batch sizes',
         why='No test evaluates the network; a gate or layer slip still trains, only worse.',
         files=['model_architectures/rnn_base_model/custom/gru_vmap.py', 'model_architectures/rnn_base_model/model/gru_model.py'],
         mech=[('GRUCell.forward, GRU.forward', 'model_architectures/rnn_base_model/custom/gru_vmap.py'), ('GRURNNModel.forward', 'model_architectures/rnn_base_model/model/gru_model.py')],
         observe=['GRUCell.forward', 'GRU.forward', 'GRURNNModel.forward'],
         technique='abstract interpretation with value numbering against the gated recurrent unit equations',
         note='Up to 3 layers, 3 times, 2 samples; torch.nn.GRU and torch.nn.Linear are taken as specified by their documentation. ' + ABS),
    dict(id='P19', title='Training updates, keeps and reports what it is documented to',
         statement='Training applies exactly one optimizer update per batch of every epoch, with the gradient of the loss of that batch at the current parameters only, model and loss receiving batch inputs, outputs and targets '
                   'in the units the normalisation options say. Explicit parameters satisfy bounds and constraints before every forward pass, stored state and record. The epoch loss is the mean of its steps; the stored best '
                   'state (and best parameters) is that of the lowest epoch loss, or, when early stopping triggers, of the lowest validation loss, which is also the returned model; states requested every n epochs and the final '
                   'state are stored, validation leaves stored states, training mode and parameters as they were, and histories, learning rates and the returned lowest loss and epoch match what happened. Stopping rules '
                   '(maximum epochs, patience with improvement tolerance, parameter convergence) fire exactly when documented. Scalers are fitted on the training set only, seeds cover every generator, a stored model continues '
                   'from the requested state, unknown options and undefined outputs are refused, and cross-validation folds never share samples between training and validation.',
         over=['inputs', 'histories', 'configurations'], text='every loss and validation loss sequence, batch partition, normalisation, scheduler, stopping and saving option, for all four training procedures',
         why='No test trains a model; a stale gradient, an aliased best state or a wrong history changes every trained model without any error.',
         files=['model_architectures/rnn_base_model/train/training.py', 'model_architectures/rc_base_model/train/training.py', 'model_architectures/hybrid_base_model/train/training.py',
                'material_model_finder/train/training.py', 'model_architectures/rnn_base_model/train/cross_validation.py', 'model_architectures/procedures/model_training.py', 'utilities/optimizers.py'],
         mech=[('train_model, EarlyStopper', 'model_architectures/rc_base_model/train/training.py'), ('check_model_parameters_convergence', 'model_architectures/rc_base_model/train/training.py'),
               ('kfold_cross_validation', 'model_architectures/rnn_base_model/train/cross_validation.py'), ('save_training_state', 'model_architectures/procedures/model_training.py')],
         observe=['train_model', 'EarlyStopper', 'check_model_parameters_convergence', 'kfold_cross_validation'],
         technique='abstract interpretation over an abstract file system with stand-in model, optimizer, loss and loader tracking gradient provenance (typestate), for every order type of the loss sequence',
         note='Order types of up to 3 epoch losses (all 13 weak orderings) and chosen sequences of 4-5 epochs with validation; up to 2 batches per epoch. ' + ABS),
    dict(id='P20', title='Predictions belong to their samples and carry the right loss',
         statement='A prediction run evaluates the requested stored state (or the given model as it is) in evaluation mode and without gradients, normalising inputs and denormalising outputs as the model says; each result file '
                   'holds the prediction, ground truth and loss of the sample with that index for every batch partition, in data units, with the loss in the requested units; the average is the mean over all samples, or '
                   'absent unless every sample has ground truth; samples without ground truth have predictions but no loss. Results go to a fresh directory, earlier results, stored states and the data set are left as they '
                   'were; missing directories, states, scalers and unknown losses are refused.',
         over=['inputs', 'configurations'], text='every data set, batch size, normalisation and loss option, availability of ground truth, for all three architectures',
         why='A permuted, mis-scaled or mislabelled prediction still produces plausible files and losses.',
         files=['model_architectures/rnn_base_model/predict/prediction.py', 'model_architectures/rc_base_model/predict/prediction.py', 'model_architectures/hybrid_base_model/predict/prediction.py',
                'model_architectures/procedures/model_prediction.py'],
         mech=[('predict, compute_sample_prediction_loss', 'model_architectures/rc_base_model/predict/prediction.py'), ('make_predictions_subdir, save_sample_predictions', 'model_architectures/procedures/model_prediction.py')],
         observe=['predict', 'compute_sample_prediction_loss'],
         technique='abstract interpretation with value numbering over an abstract file system; model and loss are uninterpreted functions',
         note='Up to 5 samples in batches of 1 to 5. ' + ABS),
    dict(id='P21', title='Losses, metrics, optimizers and denoisers compute what they name',
         statement='A loss or optimizer requested by name is that one, with every given option; unknown names and missing options are refused. The mean relative error is the mean over all entries of the absolute error over '
                   'the magnitude of the target, with small targets handled by the chosen strategy (absolute error, clipped or regularised denominator), and its gradient stays defined for zero targets. Prediction metrics are '
                   'computed feature by feature over the time series of one sample, their means over exactly the prediction files of a directory; records append or overwrite as asked and are read back; convergence data are '
                   'ordered by training set size. Denoising filters every feature by itself along time, keeps shape and precision and leaves its input unchanged.',
         over=['inputs', 'configurations'], text='every prediction and target, sample length, number of features and samples, window and number of cycles',
         why='No test evaluates a loss or metric; a wrong axis or sign handling gives plausible numbers.',
         files=['utilities/loss_functions.py', 'utilities/prediction_metrics.py', 'utilities/output_prediction_metrics.py', 'utilities/optimizers.py', 'utilities/data_denoisers.py'],
         mech=[('get_pytorch_loss, MeanRelativeErrorLoss', 'utilities/loss_functions.py'), ('compute_prediction_metrics', 'utilities/prediction_metrics.py'),
               ('compute_mean_prediction_metrics, read/write_mean_metrics_results_file', 'utilities/output_prediction_metrics.py'), ('get_pytorch_optimizer, get_learning_rate_scheduler', 'utilities/optimizers.py'),
               ('Denoiser', 'utilities/data_denoisers.py')],
         observe=['get_pytorch_loss', 'compute_prediction_metrics', 'compute_mean_prediction_metrics', 'get_pytorch_optimizer', 'Denoiser.denoise'],
         technique='abstract interpretation with value numbering over an abstract file system; library algorithms are stand-ins recording their options',
         note='Series of up to 6 times, 3 features, 3 samples; windows of up to 5. Formatted numbers are read back for chosen values only. ' + ABS),
    dict(id='P22', title='Strain paths and noise follow their bounds, cycles and laws',
         statement='Generated strain paths have one strain per time, start at zero strain, and (random paths, before any rescaling or noise) stay within the sampling bounds of every component for every regressed history, being scaled as a whole when a '
                   'bound is exceeded; proportional paths are linear in time up to a uniformly drawn end strain. With a prescribed increment norm every increment has that norm and keeps the direction of the trial increment; strain noise is '
                   'independent, centred and of the given deviation; cyclic paths load and unload along the same strains the requested number of times and end at the initial strain. Components, times and strain tensors follow their documented '
                   'order. Noise paths have, entry by entry, the law of their parameters. Invalid bounds, norms, deviations, components and too few times are refused.',
         over=['inputs', 'configurations'], text='every regressed history and random draw, bounds, number of times, control points and cycles, dimension, noise parameters and weights',
         why='Random output: tests can only sample it, and a path out of bounds or a wrong deviation is not visible in a sample.',
         files=['data_generation/strain_paths/interface.py', 'data_generation/strain_paths/random_path.py', 'data_generation/strain_paths/proportional_path.py', 'data_generation/strain_paths/noise_generator.py'],
         mech=[('RandomStrainPathGenerator.generate_strain_path', 'data_generation/strain_paths/random_path.py'), ('ProportionalStrainPathGenerator.generate_strain_path', 'data_generation/strain_paths/proportional_path.py'),
               ('NoiseGenerator.generate_noise_path', 'data_generation/strain_paths/noise_generator.py'), ('StrainPathGenerator.build_strain_tensor', 'data_generation/strain_paths/interface.py')],
         observe=['RandomStrainPathGenerator.generate_strain_path', 'ProportionalStrainPathGenerator.generate_strain_path', 'NoiseGenerator.generate_noise_path', 'StrainPathGenerator.build_strain_tensor'],
         technique='abstract interpretation with value numbering; every random draw is an affine function of a standard variable whose law is tracked, regressed histories are of every order type relative to the bounds',
         note='Up to 13 times, 3 cycles, 5 control points; bounds of chosen values. The regression itself (polyfit, Gaussian process) is a stand-in giving any history. ' + ABS),
    dict(id='P23', title='Derived strain/stress features and collected predictions are exact',
         statement='Adding strain or stress features to a data set writes, for every sample and time, the strain invariants (trace; sum of principal minors) or the hydrostatic (one third of the trace) and deviatoric stress (stress less its hydrostatic part, in the '
                   'components order of the data set), and leaves every other feature and the sample order unchanged. Component histories become symmetric tensors (and back) '
                   'without permuting components. Collected predictions pair every sample of a prediction set with its own prediction, target and time of the requested component, for all or the requested samples, for single models and for ensembles of '
                   'models. Unknown labels, orders, missing files and inconsistent shapes are refused.',
         over=['inputs', 'configurations'], text='every strain and stress entry, component order (symmetric, full, upper or lower shear), path length, data set storage, prediction set and ensemble size within the bounds',
         why='A dropped factor or a permuted component yields a plausible data set that silently changes what a model learns or what a plot shows.',
         files=['model_architectures/materials/strain_features.py', 'model_architectures/materials/stress_features.py', 'model_architectures/materials/process_predictions.py'],
         mech=[('add_strain_features', 'model_architectures/materials/strain_features.py'), ('add_stress_features', 'model_architectures/materials/stress_features.py'),
               ('build_prediction_data_arrays', 'model_architectures/materials/process_predictions.py'), ('build_time_series_predictions_data', 'model_architectures/materials/process_predictions.py')],
         observe=['add_strain_features', 'add_stress_features', 'build_prediction_data_arrays', 'build_time_series_predictions_data'],
         technique='abstract interpretation with value numbering; features compared, as polynomials in unrestricted entries, with the tensor definitions; collected predictions traced through an abstract file system of distinct symbols',
         note='Path lengths, samples and ensembles of up to a handful. ' + ABS),
    dict(id='P24', title='Generated material responses are the model response to their strains',
         statement='Every sample of a generated material response data set holds the strain path as generated (or given), its times, the stress path and the state variables that the constitutive model returns when it is updated along exactly those strain '
                   'increments from its initial state, one entry per time; a path whose state update fails is not stored, another one is generated instead, and generation gives up after the allowed number of trials. Noisy data sets store the '
                   'noisy strains together with the response to them and the strain noise and resulting stress difference; noise is requested with the weights of that very path, is added in normalized space when a scaler is given, never changes the '
                   'initial strain, and failed noisy paths are drawn again. Equivalent strain and stress, stress invariants, stress space coordinates and norms follow their definitions. Invalid settings and csv files are refused.',
         over=['inputs', 'configurations', 'fault_sequences'], text='every strain path, noise path, state update failure pattern, state feature set, dimension and component order within the bounds',
         why='Data sets are large and random; a stress belonging to another path or time cannot be seen in samples.',
         files=['user_scripts/synthetic_data/gen_response_dataset.py', 'user_scripts/synthetic_data/gen_noisy_response_dataset.py'],
         mech=[('MaterialResponseDatasetGenerator.generate_response_dataset', 'user_scripts/synthetic_data/gen_response_dataset.py'), ('MaterialResponseDatasetGenerator.compute_stress_path', 'user_scripts/synthetic_data/gen_response_dataset.py'),
               ('NoisyMaterialResponseDatasetGenerator.generate_noisy_dataset', 'user_scripts/synthetic_data/gen_noisy_response_dataset.py')],
         observe=['MaterialResponseDatasetGenerator.generate_response_dataset', 'MaterialResponseDatasetGenerator.compute_stress_path', 'NoisyMaterialResponseDatasetGenerator.generate_noisy_dataset'],
         technique='abstract interpretation with value numbering; a stand-in constitutive model whose state is an uninterpreted function of its whole strain history identifies which history produced each stored value; failures injected at every update',
         note='Up to a handful of times and paths; strain path generators, noise, scalers and denoiser are stand-ins of unrestricted values. ' + ABS),
    dict(id='P25', title='All parts of the package agree on their interfaces',
         statement='Every reference of the package to itself is met: imported modules and names exist, names are defined and can have been assigned where they are read, attributes read from an instance exist in every class that can be that '
                   'instance, every call supplies exactly the parameters that each implementation it can reach accepts (no unknown, missing or repeated argument), unpacked results have the number of values returned, abstract classes are '
                   'not instantiated, errors that are detected are raised, and no call changes the defaults of a later call.',
         over=['programs', 'inputs'], text='every module, function, call site, attribute and name of the package, including paths and options that no test executes',
         why='Most of the package (pipelines, failure branches, options, alternative architectures) is never executed by the tests; Python only notices a disagreement when that line runs, often hours into a training.',
         files=['simulators/fetorch/material/models/interface.py', 'model_architectures/rc_base_model/model/recurrent_model.py', 'user_scripts/complete_pipelines/local_model_update.py', 'user_scripts/global_model_update/material_finder/gen_specimen_data.py'],
         mech=[('ConstitutiveModel', 'simulators/fetorch/material/models/interface.py'), ('RecurrentConstitutiveModel', 'model_architectures/rc_base_model/model/recurrent_model.py')],
         observe=['ConstitutiveModel.get_device', 'generate_dirichlet_sets', 'generate_material_data', 'kfold_cross_validation'],
         technique='syntax-tree analyses over the whole package: scopes with reaching assignments, import and class-hierarchy resolution, call binding against every reachable implementation, result arity, discarded exceptions, mutated defaults',
         note='What cannot be resolved from the source (values of unknown class, third-party signatures) is left alone, so that only definite errors are reported.'),
    dict(id='P26', title='Lou-Zhang-Yoon plasticity solves its own equations',
         statement='In both implementations of the Lou-Zhang-Yoon model (loop based and vectorised, 3D and plane strain) the stress invariants, their derivatives and the effective stress are those of the definition; an elastic step '
                   'returns the trial state exactly when the trial yield function is not positive; a plastic step returns a state whose strain, hardening and yield equations (flow normal to the yield surface) are all met within tolerance, '
                   'with stress given by the elastic law, and is reached by Newton iterations with the exact Jacobian; the apex step is hydrostatic and on the yield surface; a step that fails is marked and poisoned; the convexity return mapping '
                   'leaves convex parameters alone and otherwise moves them along their own direction to the boundary.',
         over=['inputs', 'configurations'], text='every strain increment, stored state, hardening law, yield parameter evolution and multiplier, in elastic, smooth, apex and failing steps',
         why='The model is the most intricate one of the library and no test touches it: a wrong term in one of some forty derivative expressions only degrades convergence or biases the material parameters that are discovered.',
         files=['simulators/fetorch/material/models/standard/lou.py', 'simulators/fetorch/material/models/vmap/lou.py'],
         mech=[('LouZhangYoon', 'simulators/fetorch/material/models/standard/lou.py'), ('LouZhangYoonVMAP', 'simulators/fetorch/material/models/vmap/lou.py')],
         observe=['LouZhangYoon.state_update', 'LouZhangYoonVMAP.state_update', 'get_stress_invariants_and_derivatives', 'convexity_return_mapping'],
         technique='abstract interpretation with exact algebraic value numbers: residuals and Jacobian compared by formal differentiation, gated state update split on its own literals, loops summarised with the residuals as uninterpreted functions',
         note='The Jacobian is compared along one line of strain per component through a generic point, with the yield parameters rational there and unrestricted for the hardening column. The apex step is decided for fixed yield parameters (with '
              'evolving ones its tangent is a quasi-Newton one by design).'),
    dict(id='P27', title='Random material patches are regular, bounded and compatible',
         statement='A random material patch is the regular grid of its finite element: every node exists exactly where an element has one, is labelled once and lies on the grid. Corner displacements are independent draws within their '
                   'prescribed ranges, fixed corners do not move, and the two corners of a zero order edge move together across it. Every boundary edge joins its displaced corners along a polynomial of the requested order through points of '
                   'the requested range, its nodes keep their fraction of arc length, and rotation and translation are rigid. The prescribed displacements cover the whole boundary and nothing else, are deformed minus reference positions, '
                   'and patches whose boundary crosses itself are generated again or reported as failed, never returned.',
         over=['inputs', 'configurations'], text='every element type of the generator, patch dimensions, displacement range, polynomial order, noise, rotation and translation, and every random draw',
         why='Patches are random and later fed to an external finite element solver; a node attached to the wrong edge or a corner outside its range just produces other data.',
         files=['data_generation/spdg/patch_generator.py', 'data_generation/spdg/patch.py', 'simulators/links/discretization/finite_element.py'],
         mech=[('FiniteElementPatchGenerator', 'data_generation/spdg/patch_generator.py'), ('FiniteElementPatch', 'data_generation/spdg/patch.py'), ('FiniteElement', 'simulators/links/discretization/finite_element.py')],
         observe=['FiniteElementPatchGenerator.generate_deformed_patch', 'FiniteElementPatch.get_mesh_boundary_nodes_disps', 'FiniteElement.get_nodes_matrix'],
         technique='abstract interpretation with exact algebraic value numbers: random draws are affine in fresh standard variables, the planar geometry library and (for the pipeline) the interior edge nodes are unrestricted stand-ins, node positions compared in closed form',
         note='Mesh sizes are a few concrete ones per element; corner geometry of the pipeline is one rational deformation per dimension with all edge nodes, angles and translations unrestricted. Whether the polygon crosses itself is '
              'the geometry library\'s answer. Contradictory ranges of the corners of a zero order edge are not constrained.'),
    dict(id='P28', title='Solver, ABAQUS and specimen files describe the same mesh and histories',
         statement='The input file written for the external solver has every node of the patch at its position, every element with its nodes in the element\'s order and its material phase, the material data of every phase, the prescribed '
                   'displacement of every boundary node and the requested load increments; removing elements keeps everything else. Converting between the solver\'s, ABAQUS\' and the package\'s own formats keeps nodes, elements, element '
                   'types and prescribed degrees of freedom; node histories are read step by step in the order of time, and the specimen built from the files has the same mesh, displacements, forces and constraints. Point sets and reaction '
                   'histories refer to the labelled nodes; noise injected into (or filtered from) history files changes the displacements only, step by step, and malformed input is refused.',
         over=['inputs', 'configurations'], text='every mesh of the supported element types, node labels, coordinates, displacements, reaction forces, material parameters, loading, missing or malformed section',
         why='Files pass through three formats before a model is identified; a permuted connectivity, two numbers without a blank or a file sorted in the wrong order gives a valid specimen that is a different experiment.',
         files=['simulators/links/links.py', 'simulators/links/utilities/links_dat_to_inp.py', 'simulators/links/utilities/links_data_to_adimu.py', 'simulators/links/utilities/links_specimen_dirichlet.py', 'simulators/links/utilities/links_nodedata_to_csv.py',
                'simulators/links/utilities/links_out_to_dataset.py', 'user_scripts/global_model_update/material_finder/gen_specimen_data.py', 'user_scripts/global_model_update/utilities/process_specimen_data.py',
                'miscellaneous/noisy_data/inject_disp_noise_csv.py', 'miscellaneous/noisy_data/denoise_disp_noise_csv.py'],
         mech=[('LinksSimulator', 'simulators/links/links.py'), ('gen_adimu_data_from_links', 'simulators/links/utilities/links_data_to_adimu.py'), ('links_dat_to_abaqus_inp', 'simulators/links/utilities/links_dat_to_inp.py'),
               ('gen_specimen_dataset', 'user_scripts/global_model_update/material_finder/gen_specimen_data.py')],
         observe=['LinksSimulator.generate_input_data_file', 'gen_adimu_data_from_links', 'get_specimen_mesh_from_inp_file', 'get_specimen_numerical_data', 'build_dirichlet_sets_reaction_history'],
         technique='abstract interpretation over an abstract file system: an unrestricted number that is printed becomes a token of the width of its format, so layout is exact and everything read back is an algebraic value of what was written',
         note='Mesh sizes and file sets are a few concrete ones per element; number formats are judged for at least six decimals, not beyond. The external solver and the data frame library are stand-ins; file formats are those the package reads and writes.'),
    dict(id='P29', title='Model updating reaches exactly the learnable parameters, within their bounds',
         statement='A finder of material models reports every learnable parameter of every model, and of every submodel of a hybrid model, under its own label, with its own value and bounds, in original units. '
                   'Enforcing bounds and model constraints acts on the learnable explicit parameters alone and leaves every one of them inside its bounds. Fitted data scalers reach the models that normalise. Loss time weights given for a '
                   'specimen multiply the loss of their own time step, and weights that cannot be used are refused. Loss and reaction records store what was computed, per time step, component and boundary set. The workflow scripts update '
                   'the models of the given specimen and return its loss and its local strain-stress paths.',
         over=['inputs', 'configurations'], text='every combination of explicit, implicit, normalising and hybrid models, parameter values, bounds and weights, numbers of time steps and boundary sets',
         why='Parameter names are composed over models and submodels; a value written under a neighbour\'s label, or a bound enforced on another model, gives a converged and wrong material.',
         files=['material_model_finder/model/material_discovery.py', 'material_model_finder/utilities/torch_parameters.py', 'user_scripts/global_model_update/material_finder/train_model.py',
                'user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py', 'user_scripts/global_model_update/optimization/hydra_optimization.py'],
         mech=[('MaterialModelFinder', 'material_model_finder/model/material_discovery.py')],
         observe=['MaterialModelFinder.get_detached_model_parameters', 'MaterialModelFinder.get_model_parameters_bounds', 'MaterialModelFinder.enforce_parameters_bounds', 'MaterialModelFinder.set_specimen_data', 'gen_specimen_local_paths'],
         technique='abstract interpretation of the finder and its scripts with stand-in models whose parameters are unrestricted numbers, on an abstract file system: values, labels and records compared as algebraic expressions',
         note='The models themselves are stand-ins (their laws are decided by P06 to P11 and P26); up to three models per specimen and three time steps.'),
    dict(id='P30', title='Data set pruning removes the best predicted samples and loses nothing',
         statement='Every pruning step trains, validates and tests on three separate parts of the development set, tests the model it has trained, removes the requested number of test samples with the smallest prediction loss from the '
                   'development set and adds exactly these to the unused samples. Every iteration trains and validates on the samples that are left, tests the model it has trained on the requested data sets, and records sizes, losses and errors '
                   'of that iteration under its own number. Base data sets are kept, no sample is lost or duplicated, pruning ends at the first stop criterion that is reached with that reason reported, and missing or malformed data is refused.',
         over=['inputs', 'configurations', 'histories'], text='every order of the prediction losses and several random splits, sizes, schedulers, testing types and stop criteria',
         why='Pruning is days of training: an index that refers to the split instead of the development set removes arbitrary samples, and every later model is still trained and tested without an error.',
         files=['miscellaneous/pruning/pruning_dataset.py', 'time_series_data/time_dataset.py'],
         mech=[('perform_pruning_step', 'miscellaneous/pruning/pruning_dataset.py'), ('prune_time_series_dataset', 'miscellaneous/pruning/pruning_dataset.py')],
         observe=['prune_time_series_dataset', 'perform_pruning_step', 'get_n_prun_sample', 'read_samples_loss_from_dir', 'preview_pruning_iterations'],
         technique='abstract interpretation over an abstract file system with labelled samples, enumerated random splits and loss orders, and recording stand-ins for training and prediction: an account of where every sample is',
         note='Data set sizes are concrete (up to 48 samples) and splits are a few permutations; training and prediction themselves are stand-ins (decided by P19 and P20).'),
    dict(id='P31', title='Local model updating data belong to their temperature and composition',
         statement='For every temperature and composition pair and data set type, one data set of the requested size is stored whose first share are random paths and the rest proportional paths; each sample is the response of the material '
                   'at the temperature and composition it records: training exactly at the pair, validation and testing between neighbouring grid values. Failed responses are redrawn and never stored. Material parameters follow the fit and are refused '
                   'outside it. Assembly keeps each sample of its type exactly once (or the requested fraction of each set) and overwrites only its own type; updating trains, validates and tests on the assembled files and removes only temporary directories. '
                   'Evaluation feeds strains, temperature and composition in the units of the model, and uniaxial stress paths cancel the transverse stresses.',
         over=['inputs', 'configurations', 'histories'], text='symbolic temperatures, compositions and random draws, several grids, sizes, ratios, failing responses and earlier directory contents',
         why='A sample stored with the temperature of its neighbour, or a validation set assembled from training files, still trains: the updated local model is wrong for one material and nothing reports it.',
         files=['user_scripts/complete_pipelines/local_model_update.py', 'user_scripts/complete_pipelines/evaluate_gru_model.py'],
         mech=[('generate_material_data', 'user_scripts/complete_pipelines/local_model_update.py'), ('get_model_parameters', 'user_scripts/complete_pipelines/local_model_update.py'), ('get_uniaxial_stress_path', 'user_scripts/complete_pipelines/evaluate_gru_model.py')],
         observe=['generate_material_data', 'get_model_parameters', 'set_dependencies_dir', 'forward_material_model', 'get_uniaxial_stress_path'],
         technique='abstract interpretation over an abstract file system with labelled paths, materials and responses and symbolic random draws; parameter laws, model inputs and uniaxial paths compared as algebraic expressions',
         note='Grid and data set sizes are concrete; path generators, the response generator, training and prediction are stand-ins (decided by P14, P17, P19 and P20). Pairs are assumed to differ within two decimals (the directory name). The uniaxial iteration is decided for a linear history dependent material.'),
]
NOT_APPLICABLE = []
