"""Behaviour-preserving edits; the checks have to stay quiet on them.  (name, file, old, new, properties)"""
R = []


def r(name, f, props, *edits):
    R.append((name, f, [(edits[i], edits[i + 1]) for i in range(0, len(edits), 2)], props.split()))


SC = 'state_costate_and_data_dictionary_utils.py'
r('assemble-comprehension', SC, 'C01 C08 C18', """    d_list = []
    assembly_plan = SortedDict()
    for k in d:
        d_list.append(d[k].contiguous().view(-1))  # entirely flatten is (shape is stored by assembly plan)
        assembly_plan[k] = d[k].shape

    if len(d_list) > 0:
        ret = torch.cat(tuple(d_list))
    else:
        # was an empty directory
        ret = None
        assembly_plan = None

    return ret, assembly_plan
""", """    if not d:
        # was an empty directory
        return None, None

    assembly_plan = SortedDict((k, v.shape) for k, v in d.items())
    return torch.cat([v.reshape(-1) for v in d.values()]), assembly_plan
""")
r('disassemble-helper', SC, 'C01 C08 C18', """        len_shape = torch.prod(torch.tensor(current_shape)).item()

        if dim == 0:
            ret_dict[k] = (input[incr:incr + len_shape]).view(current_shape)
        elif dim == 1:
            first_dim = input.shape[0]
            all_shape = torch.Size([first_dim] + list(current_shape))
            ret_dict[k] = (input[:, incr:incr + len_shape]).view(all_shape)
        else:
            raise ValueError('Currently only supported for dims 0 or 1, but got dim = {}'.format(dim))

        incr += len_shape
""", """        len_shape = current_shape.numel()
        end = incr + len_shape
        ret_dict[k] = _take(input, incr, end, current_shape, dim)
        incr = end
""", "def _disassemble_dict(input,", """def _take(vec, beg, end, shape, dim):
    if dim not in (0, 1):
        raise ValueError('Currently only supported for dims 0 or 1, but got dim = {}'.format(dim))
    if dim == 0:
        return vec[beg:end].reshape(shape)
    return vec[:, beg:end].reshape((vec.shape[0],) + tuple(shape))

def _disassemble_dict(input,""")
r('dod-assemble-list', SC, 'C01 C08 C18', """    assembly_plans = dict()
    ret = None
    for dk in d:
        current_ret, current_plan = _assemble_generic_dict(d[dk])
        if current_ret is not None:
            assembly_plans[dk] = current_plan
            if ret is None:
                ret = current_ret
            else:
                ret = torch.cat((ret, current_ret))
    return ret, assembly_plans
""", """    assembly_plans = dict()
    vecs = []
    for dk, cd in d.items():
        current_ret, current_plan = _assemble_generic_dict(cd)
        if current_ret is None:
            continue
        assembly_plans[dk] = current_plan
        vecs.append(current_ret)
    return (torch.cat(vecs) if vecs else None), assembly_plans
""")
r('merge-copy', SC, 'C03 C18', """    ret_dict_of_dicts = SortedDict()
    # now add the individual one
    if generic_dict is not None:
        ret_dict_of_dicts[generic_dict_block_name] = generic_dict

    if generic_dict_of_dicts is not None:
        # todo: maybe there is an easier way to copy these dictionary entries instead of always looping over the entries (copy? deepcopy?)
        # first create the same key structure as in the generic_dict_of_dicts (we are not copying as we do not want to change the keys of generic_dict_of_dicts)
        for dk in generic_dict_of_dicts:
            ret_dict_of_dicts[dk] = SortedDict()
            c_generic_dict = generic_dict_of_dicts[dk]
            c_ret_dict = ret_dict_of_dicts[dk]
            for k in c_generic_dict:
                c_ret_dict[k] = c_generic_dict[k]

    return ret_dict_of_dicts
""", """    ret_dict_of_dicts = SortedDict()
    if generic_dict_of_dicts is not None:
        for name, group in generic_dict_of_dicts.items():
            ret_dict_of_dicts[name] = SortedDict(group)
    if generic_dict is not None:
        ret_dict_of_dicts[generic_dict_block_name] = generic_dict
    return ret_dict_of_dicts
""")
r('concat-once', SC, 'C02 C08 C18', """                t_shape1 = concatenated_dict[k].size()
                t_shape2 = c_generic_dict[k].size()

                try:
                    concatenated_dict[k] = torch.cat((concatenated_dict[k], c_generic_dict[k]), dim=concatenation_dim)
                except:
                    raise ValueError(
                        'Dimension mismatch when trying to concatenate tensor of shape {} and {} along dimension 1.'.format(
                            t_shape1, t_shape2))
""", """                concatenated_dict[k] = _cat_checked(concatenated_dict[k], c_generic_dict[k], concatenation_dim)
""", "def _concatenate_dict_of_dicts(generic", """def _cat_checked(a, b, dim):
    try:
        return torch.cat([a, b], dim)
    except Exception:
        raise ValueError('Dimension mismatch when trying to concatenate tensor of shape {} and {} along dimension {}.'.format(a.size(), b.size(), dim))

def _concatenate_dict_of_dicts(generic""")
r('deconcat-narrow', SC, 'C02 C08 C18', """            if concatenation_dim==0:
                c_ret[kc] = concatenated_dict[kc][indx[k]:indx[k] + t_shape[0], ...]
                indx[k] += t_shape[0]
            elif concatenation_dim==1:
                c_ret[kc] = concatenated_dict[kc][:, indx[k]:indx[k] + t_shape[1], ...]
                indx[k] += t_shape[1]
            elif concatenation_dim==2:
                c_ret[kc] = concatenated_dict[kc][:, :, indx[k]:indx[k] + t_shape[2], ...]
                indx[k] += t_shape[2]
            elif concatenation_dim==3:
                c_ret[kc] = concatenated_dict[kc][:, :, :, indx[k]:indx[k] + t_shape[3], ...]
                indx[k] += t_shape[3]
            elif concatenation_dim==4:
                c_ret[kc] = concatenated_dict[kc][:, :, :, :, indx[k]:indx[k] + t_shape[4], ...]
                indx[k] += t_shape[4]
            else:
                raise""", """            if concatenation_dim in range(5):
                length = t_shape[concatenation_dim]
                c_ret[kc] = concatenated_dict[kc].narrow(concatenation_dim, indx[k], length)
                indx[k] += length
            else:
                raise""")
r('tuple-enumerate', SC, 'C04 C06 C08', """    extracted_dicts = SortedDict()
    indx = 0
    for k in generic_dict_of_dicts:
        extracted_dicts[k] = SortedDict()
        c_extracted_dict = extracted_dicts[k]
        c_generic_dict = generic_dict_of_dicts[k]
        for m in c_generic_dict:
            c_extracted_dict[prefix + m] = data_tuple[indx]
            indx += 1
    return extracted_dicts
""", """    it = iter(data_tuple)
    extracted_dicts = SortedDict()
    for k in generic_dict_of_dicts:
        extracted_dicts[k] = SortedDict((prefix + m, next(it)) for m in generic_dict_of_dicts[k])
    return extracted_dicts
""")
BL = 'shooting_blocks.py'
r('slot-search', BL, 'C10 C14', """                if t<self.last_used_time:
                    # search to the left, and it is not smaller than the first so we can savely go to the left until we find it
                    while t<self.last_used_time:
                        self.last_used_time_idx -= 1
                        self.last_used_time = self.times[self.last_used_time_idx]
                    return self.time_parameter_list[self.last_used_time_idx]
                elif""", """                if""", """                    self.last_used_time = self.times[-1]
                    self.last_used_time_idx = len(self.time_parameter_list) - 1
                    return self.time_parameter_list[-1]
                elif t==self.last_used_time:
                    return self.time_parameter_list[self.last_used_time_idx]
                elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                    # first check if it is larger than the largest where we havge a parameter
                    # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
                    while t>=self.times[self.last_used_time_idx+1]:
                        self.last_used_time_idx += 1
                    self.last_used_time = self.times[self.last_used_time_idx]
                    return self.time_parameter_list[self.last_used_time_idx]
                else:
                    raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
""", """                    return self.time_parameter_list[-1]
                idx = 0
                for i, start in enumerate(self.times):
                    if start <= t:
                        idx = i
                return self.time_parameter_list[idx]
""")
r('slot-merged', BL, 'C10 C14', """                elif t==self.last_used_time:
                    return self.time_parameter_list[self.last_used_time_idx]
                elif t>self.last_used_time: # t>=self.last_used_time, search to the right, but does not go outside the range
                    # first check if it is larger than the largest where we havge a parameter
                    # search to the right, and it is not greater thatn the last so we can savely go to the right until we find it
                    while t>=self.times[self.last_used_time_idx+1]:
                        self.last_used_time_idx += 1
                    self.last_used_time = self.times[self.last_used_time_idx]
                    return self.time_parameter_list[self.last_used_time_idx]
                else:
                    raise ValueError('This should never have happend. Uncaught time {}'.format(t.item()))
""", """                while not t < self.times[self.last_used_time_idx + 1]:
                    self.last_used_time_idx += 1
                self.last_used_time = self.times[self.last_used_time_idx]
                return self.time_parameter_list[self.last_used_time_idx]
""")
r('enlarge-helper', BL, 'C12 C18', """                beg_size = current_size.clone()
                beg_size[c_dim] = beg_add
                indx_end = indx + beg_size.prod()
                beg_pars = e_pars[indx:indx_end]
                indx = indx_end

                end_size = current_size.clone()
                end_size[c_dim] = end_add
                indx_end = indx + end_size.prod()
                end_pars = e_pars[indx:indx_end]
                indx = indx_end

                ret = torch.cat((beg_pars.view(tuple(beg_size)),
                                 ret,
                                 end_pars.view(tuple(end_size))), dim=c_dim)
""", """                beg, indx = self._next_slab(e_pars, indx, current_size, c_dim, beg_add)
                end, indx = self._next_slab(e_pars, indx, current_size, c_dim, end_add)
                ret = torch.cat((beg, ret, end), dim=c_dim)
""", "    def _enlarge_tensor(self", """    @staticmethod
    def _next_slab(pars, start, size, dim, width):
        slab_size = size.clone()
        slab_size[dim] = width
        stop = start + slab_size.prod()
        return pars[start:stop].view(tuple(slab_size)), stop

    def _enlarge_tensor(self""")
r('forward-split', BL, 'C18 C14 C12', """        #integrate
        if self.integration_time_vector is not None:
            res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time_vector)
            state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_all_times,dim=1)
            res = self.shooting_integrand.disassemble(res_all_times,dim=1)
        else:
            res_all_times = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=self.integration_time)
            res_final = res_all_times[-1, ...]
            state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(res_final)
            # and get what should typically be returned (the transformed data)
            res = self.shooting_integrand.disassemble(res_final,dim=0)
""", """        #integrate
        all_times = self.integration_time_vector is not None
        t = self.integration_time_vector if all_times else self.integration_time
        sol = self.integrator.integrate(func=self.shooting_integrand, x0=initial_conditions, t=t)
        if not all_times:
            sol = sol[-1]
        dim = int(all_times)
        state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = self.shooting_integrand.disassemble_tensor(sol, dim=dim)
        res = self.shooting_integrand.disassemble(sol, dim=dim)
""")
r('enlarge-dod-items', BL, 'C12 C18', """        for gd, epd in zip(generic_dict_of_dicts, enlargement_parameters):

            enlarged_dict_of_dicts[gd] = SortedDict()

            c_dict = generic_dict_of_dicts[gd]
            c_enlargement_parameter_dict = enlargement_parameters[epd]
            c_enlarged_dict = enlarged_dict_of_dicts[gd]

            for kd, kep in zip(c_dict, c_enlargement_parameter_dict):
                if c_enlargement_parameter_dict[kep] is not None:
                    c_enlarged_dict[kd] = self._enlarge_tensor(c_dict[kd], c_enlargement_parameter_dict[kep])
                else:
                    c_enlarged_dict[kd] = c_dict[kd]
""", """        for gd, epd in zip(generic_dict_of_dicts, enlargement_parameters):
            c_enlarged_dict = SortedDict()
            for (kd, v), enlargement in zip(generic_dict_of_dicts[gd].items(), enlargement_parameters[epd].values()):
                c_enlarged_dict[kd] = v if enlargement is None else self._enlarge_tensor(v, enlargement)
            enlarged_dict_of_dicts[gd] = c_enlarged_dict
""")
r('diff-loop', BL, 'C12', """                current_diff = [0] * len(current_size)
                found_greater_than_zero = False

                for i in range(len(current_diff)):
                    current_diff[i] = desired_size[i] - current_size[i]
                    if current_diff[i] > 0:
                        found_greater_than_zero = True
                    if current_diff[i] < 0:
                        raise ValueError(
                            'State size is smaller than pass through state size. Currently not supported. Aborting.')
""", """                current_diff = [d - c for d, c in zip(desired_size, current_size)]
                if any(d < 0 for d in current_diff):
                    raise ValueError('State size is smaller than pass through state size. Currently not supported. Aborting.')
                found_greater_than_zero = any(d > 0 for d in current_diff)
""")
SB = 'striding_block.py'
r('stride-slices', SB, 'C11', """        if stride_dim==2:
            return input[:,:,offset::stride,...]
        elif stride_dim==3:
            return input[:,:,:,offset::stride,...]
        elif stride_dim==4:
            return input[:,:,:,:,offset::stride,...]
        elif stride_dim==5:
            return input[:,:,:,:,:,offset::stride,...]
        else:
            raise ValueError('Unsupported dimension {}'.format(stride_dim))
""", """        if stride_dim > 5:
            raise ValueError('Unsupported dimension {}'.format(stride_dim))
        index = [slice(None)] * dim_input
        index[stride_dim] = slice(offset, None, stride)
        return input[tuple(index)]
""")
VM = 'validation_measures.py'
r('measures-loop', VM, 'C20', """    ss_fro = np.array(data['sum_sqr_frobenius_norm'])
    ss_fro = 0.5*(ss_fro[0:-1]+ss_fro[1:]) # midpoint

    log2_frobenius = np.sum(delta_t*np.log2(ss_fro))

    ss_nuc = np.array(data['sum_sqr_nuclear_norm'])
    ss_nuc = 0.5 * (ss_nuc[0:-1] + ss_nuc[1:])  # midpoint

    log2_nuclear = np.sum(delta_t * np.log2(ss_nuc))

    ss_spe = np.array(data['sum_sqr_spectral_norm'])
    ss_spe = 0.5 * (ss_spe[0:-1] + ss_spe[1:])  # midpoint

    log2_spectral = np.sum(delta_t * np.log2(ss_spe))

    log_complexity_measures = dict()
    log_complexity_measures['log2_frobenius'] = log2_frobenius
    log_complexity_measures['log2_nuclear'] = log2_nuclear
    log_complexity_measures['log2_spectral'] = log2_spectral
""", """    log_complexity_measures = dict()
    for norm in ('frobenius', 'nuclear', 'spectral'):
        values = np.array(data['sum_sqr_{}_norm'.format(norm)])
        mid = (values[:-1] + values[1:]) / 2
        log_complexity_measures['log2_' + norm] = (delta_t * np.log2(mid)).sum()
""")
r('measures-where', VM, 'C20', """    delta_t = t[1:]-t[0:-1]

    # if delta_t is negative we set it to zero, this can for example happen if we chunked the time together and we always restart from zero
    ind = delta_t<0
    delta_t[ind] = 0.0
""", """    delta_t = np.maximum(np.diff(t), 0.0)
""")
UT = 'utils.py'
r('freeze-dict', UT, 'C19', """    pass

    # get all the parameters that we are optimizing over
    pars_list = list(shooting_block.named_parameters())

    # put them all in a dictionary
    pars = dict()
    for v in pars_list:
        pars[v[0]] = v[1]

    for pn in parameters:
        if requires_grad_val:
            print('Unfreezing {}'.format(pn))
        else:
            print('Freezing {}'.format(pn))
        pars[pn].requires_grad = requires_grad_val
""", """    pars = dict(shooting_block.named_parameters())
    action = 'Unfreezing' if requires_grad_val else 'Freezing'
    for pn in parameters:
        print('{} {}'.format(action, pn))
        pars[pn].requires_grad_(requires_grad_val)
""")
r('count-numel', UT, 'C19', """        current_number_of_parameters = np.prod(list(pv.size()))
""", """        current_number_of_parameters = pv.numel()
""", """        if pv.requires_grad:
            nr_of_optimized_parameters += current_number_of_parameters
        else:
            nr_of_fixed_parameters += current_number_of_parameters
""", """        if not pv.requires_grad:
            nr_of_fixed_parameters += current_number_of_parameters
        else:
            nr_of_optimized_parameters += current_number_of_parameters
""")
LR = 'custom_lr_scheduler.py'
r('plateau-dispatch', LR, 'C16', """        if mode == 'min' and threshold_mode == 'rel':
            rel_epsilon = 1. - threshold
            return a < best * rel_epsilon

        elif mode == 'min' and threshold_mode == 'abs':
            return a < best - threshold

        elif mode == 'max' and threshold_mode == 'rel':
            rel_epsilon = threshold + 1.
            return a > best * rel_epsilon

        else:  # mode == 'max' and epsilon_mode == 'abs':
            return a > best + threshold
""", """        sign = -1. if mode == 'min' else 1.
        bound = best * (1. + sign * threshold) if threshold_mode == 'rel' else best + sign * threshold
        return a < bound if mode == 'min' else bound < a
""")
r('plateau-step', LR, 'C16', """        if self.is_better(current, self.best):
            self.best = current
            self.num_bad_epochs = 0
        else:
            self.num_bad_epochs += 1

        if self.in_cooldown:
            self.cooldown_counter -= 1
            self.num_bad_epochs = 0  # ignore any bad epochs in cooldown
""", """        improved = self.is_better(current, self.best)
        if improved:
            self.best = current
        if self.in_cooldown:
            self.cooldown_counter -= 1
            self.num_bad_epochs = 0
        else:
            self.num_bad_epochs = 0 if improved else self.num_bad_epochs + 1
""")
r('plateau-groups', LR, 'C16', """        for i, param_group in enumerate(self.optimizer.param_groups):
            old_lr = float(param_group['lr'])
            new_lr = max(old_lr * self.factor, self.min_lrs[i])
            if old_lr - new_lr > self.eps:
                param_group['lr'] = new_lr

                self._reset()
""", """        for i, (param_group, min_lr) in enumerate(zip(self.optimizer.param_groups, self.min_lrs)):
            old_lr = float(param_group['lr'])
            new_lr = old_lr * self.factor
            if new_lr < min_lr:
                new_lr = min_lr
            if not old_lr - new_lr <= self.eps:
                self._reset()
                param_group['lr'] = new_lr
""")
CL = 'command_line_execution_tools.py'
r('sweep-product', CL, 'C15', """    cur_pars = copy.deepcopy(pars_to_sweep)
    # get first key and remove it

    cur_keys = list(cur_pars.keys())
    if len(cur_keys)==0:
        #print('pars: {}'.format(par_dict))
        swept_parameter_list.append(copy.deepcopy(par_dict))
        return swept_parameter_list

    first_key = cur_keys[0]
    # sweep over it
    sweep_vals = cur_pars[first_key]

    # remove the key from the dictionary
    cur_pars.pop(first_key)

    for v in sweep_vals:
        par_dict[first_key] = v
        recursively_sweep_parameters(pars_to_sweep=cur_pars,par_dict=par_dict,swept_parameter_list=swept_parameter_list)

    return swept_parameter_list
""", """    keys = list(pars_to_sweep.keys())
    for values in itertools.product(*[pars_to_sweep[k] for k in keys]):
        entry = copy.deepcopy(par_dict)
        for k, v in zip(keys, values):
            entry[k] = copy.deepcopy(v)
        swept_parameter_list.append(entry)
    return swept_parameter_list
""", "import copy\n", "import copy\nimport itertools\n")
r('args-items', CL, 'C15', """    arg_list = []
    for k in args:
        arg_list.append('--' + str(k))
        if args[k] is not None:
            arg_list.append( str(args[k]) )

    return arg_list
""", """    arg_list = []
    for k, v in args.items():
        arg_list += ['--{}'.format(k)] if v is None else ['--{}'.format(k), str(v)]
    return arg_list
""")
EX = 'experiment_utils.py'
r('merge-isinstance', EX, 'C15', """    for k in add_args:
        v = add_args[k]
        if (v is True) or (v is False): # check if v is binary
            if v:
                merged_args[k] = None # just add the flag
            else:
                merged_args.pop(k,None) # the flag is off, also if the template switches it on
        else:
            merged_args[k] = v
""", """    for k, v in add_args.items():
        if v is False:
            if k in merged_args:
                del merged_args[k]
        elif v is True:
            merged_args[k] = None
        else:
            merged_args[k] = v
""")
IG = 'shooting_integrands.py'
r('kinetic-helper', IG, 'C06 C14', """            for k in current_pars:
                cpar = current_pars[k]
                if k not in current_weights:
                    cpar_penalty = (cpar ** 2).sum()
                else:
                    if current_weights[k] is None:
                        cpar_penalty = (cpar ** 2).sum()
                    else:
                        cpar_penalty = current_weights[k]*(cpar**2).sum()

                kinetic_energy = kinetic_energy + cpar_penalty

        kinetic_energy = 0.5*kinetic_energy
""", """            for k, cpar in current_pars.items():
                weight = current_weights.get(k)
                norm = torch.sum(cpar*cpar)
                kinetic_energy = kinetic_energy + (norm if weight is None else weight*norm)/2
""")
r('potential-einsum', IG, 'C06 C07 C14', """        potential_energy = 0

        for d_ks,d_kcs in zip(rhs_state_dict_of_dicts,costate_dict_of_dicts):
            c_rhs_state_dict = rhs_state_dict_of_dicts[d_ks]
            c_costate_dict = costate_dict_of_dicts[d_kcs]
            for ks,kcs in zip(c_rhs_state_dict,c_costate_dict):
                potential_energy = potential_energy + torch.sum(torch.mean(c_costate_dict[kcs]*c_rhs_state_dict[ks],dim=0))
        return potential_energy
""", """        potential_energy = 0

        for c_rhs_state_dict,c_costate_dict in zip(rhs_state_dict_of_dicts.values(),costate_dict_of_dicts.values()):
            for dot_q,p in zip(c_rhs_state_dict.values(),c_costate_dict.values()):
                potential_energy = potential_energy + (dot_q*p).sum()/p.shape[0]
        return potential_energy
""")
r('divide-helper', IG, 'C06 C07', """            for k,f in zip(current_pars,current_pars_from):
                if k not in current_weights:
                    current_pars[k] = current_pars_from[f]
                else:
                    if current_weights[k] is None:
                        current_pars[k] = current_pars_from[f]
                    else:
                        current_pars[k] = current_pars_from[f]/current_weights[k]
""", """            for k,f in zip(current_pars,current_pars_from):
                w = current_weights[k] if k in current_weights else None
                new_value = current_pars_from[f]
                if w is not None:
                    new_value = new_value/w
                current_pars[k] = new_value
""")
r('hook-helper', IG, 'C22 C08', """        handle = hooks.RemovableHandle(self._lagrangian_gradient_hooks)
        self._lagrangian_gradient_hooks[handle.id] = hook
        return handle
""", """        registered = self._lagrangian_gradient_hooks
        handle = hooks.RemovableHandle(registered)
        registered[handle.id] = hook
        return handle
""")
MO = 'shooting_models.py'
r('simple-locals', MO, 'C07 C21 C06', """    def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
""", """    def rhs_advect_state(self, t, state_dict_or_dict_of_dicts, parameter_objects):
        # evaluates the state equations
""") if False else None
PI = 'parameter_initialization.py'
r('init-size', PI, 'C17', """    def create_zero_parameters(self,nr_of_particles,particle_size,particle_dimension=1,*argv,**kwargs):
        size = tuple([nr_of_particles,particle_dimension,particle_size])
        return nn.Parameter(torch.zeros(size))

    def create_constant_parameters(self, nr_of_particles, particle_size, particle_dimension=1, constant=None, *argv, **kwargs):
        size = tuple([nr_of_particles, particle_dimension, particle_size])
        return nn.Parameter(constant*torch.ones(size))
""", """    @staticmethod
    def _size(*sizes):
        return tuple(sizes)

    def create_zero_parameters(self,nr_of_particles,particle_size,particle_dimension=1,*argv,**kwargs):
        return nn.Parameter(torch.zeros(self._size(nr_of_particles,particle_dimension,particle_size)))

    def create_constant_parameters(self, nr_of_particles, particle_size, particle_dimension=1, constant=None, *argv, **kwargs):
        return nn.Parameter(torch.full(self._size(nr_of_particles, particle_dimension, particle_size), float(constant)))
""")
r('init-checks', PI, 'C17', """        if set_to_zero:
            return self.create_zero_parameters_like(like_tensor=like_tensor,*argv,**kwargs)
        elif set_to_constant is not None:
            return self.create_constant_parameters_like(like_tensor=like_tensor, constant=set_to_constant, *argv, **kwargs)
        elif self.only_random_initialization:
            return self.create_random_parameters_like(like_tensor=like_tensor,*argv,**kwargs)
        else:
            return self.create_custom_parameters_like(like_tensor=like_tensor,*argv,**kwargs)
""", """        if set_to_zero:
            return self.create_zero_parameters_like(like_tensor=like_tensor,*argv,**kwargs)
        if set_to_constant is None:
            create = self.create_random_parameters_like if self.only_random_initialization else self.create_custom_parameters_like
            return create(like_tensor=like_tensor, *argv, **kwargs)
        return self.create_constant_parameters_like(like_tensor=like_tensor, constant=set_to_constant, *argv, **kwargs)
""")
AF = 'activation_functions_and_derivatives.py'
r('nl-table', AF, 'C05', """    if use_nonlinearity == 'relu':
        nl = nn.functional.relu
        dnl = drelu
    elif use_nonlinearity == 'tanh':
        nl = torch.tanh
        dnl = dtanh
    elif use_nonlinearity == 'identity':
        nl = identity
        dnl = didentity
    elif use_nonlinearity == 'sigmoid':
        nl = torch.sigmoid
        dnl = dsigmoid
    elif use_nonlinearity == 'softmax':
        nl = softmax
        dnl = dsoftmax
    else:
        raise ValueError('Unknown nonlinearity {}'.format(use_nonlinearity))

    return nl,dnl
""", """    table = {'relu': (torch.relu, drelu), 'tanh': (torch.tanh, dtanh), 'identity': (identity, didentity),
             'sigmoid': (torch.sigmoid, dsigmoid), 'softmax': (softmax, dsoftmax)}
    return table[use_nonlinearity]
""")
r('nl-drelu-where', AF, 'C05', """    res = (x>=0)
    res = res.type(x.type())
    return res
""", """    return torch.where(x < 0, torch.zeros_like(x), torch.ones_like(x))
""")
GI = 'generic_integrator.py'
r('integrate-options', GI, 'C09', """        if self.use_adjoint_integration:
            # odeint(func, y0, t, rtol=1e-7, atol=1e-9, method=None, options=None)
            res = odeintadjoint(func=func,y0=x0,t=t,rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**self.kwargs)
            return res
        else:
            # odeint(func, y0, t, rtol=1e-7, atol=1e-9, method=None, options=None)
            res = odeint(func=func,y0=x0,t=t, rtol=self.rtol, atol=self.atol, method=self.integrator_name,options=self.integrator_options,**self.kwargs)
            return res
""", """        solver = odeintadjoint if self.use_adjoint_integration else odeint
        return solver(func, x0, t, rtol=self.rtol, atol=self.atol, method=self.integrator_name, options=self.integrator_options, **self.kwargs)
""")
r('rnn-helper', IG, 'C06 C08 C14', """            else:
                # we only compute it the first time
                if self._rnn_parameters is None:
                    parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
                                                        costate_dict_of_dicts=costate_dict_of_dicts)
                    self._rnn_parameters = parameter_objects
                else:
                    parameter_objects = self._rnn_parameters

        else:
            # we compute these parameters every time
            # current parameters are computed via autodiff
            parameter_objects = self.compute_parameters(t=t, state_dict_of_dicts=state_dict_of_dicts,
                                                        costate_dict_of_dicts=costate_dict_of_dicts)
""", """            else:
                if self._rnn_parameters is None:
                    self._rnn_parameters = self.compute_parameters(t, state_dict_of_dicts, costate_dict_of_dicts)
                parameter_objects = self._rnn_parameters

        else:
            parameter_objects = self.compute_parameters(t, state_dict_of_dicts, costate_dict_of_dicts)
""", """        if t == 0:
            if self._externally_managed_rnn_parameters:
                # just average the kinetic energy over the parameters
                if self._rnn_parameter_func is None:
                    raise ValueError('RNN parameter function should have been specified earlier')
                par_list = self._rnn_parameter_func.get_time_parameter_list()
                current_kinetic_energy_sum = torch.Tensor([0.0])
                for current_parameter_objects in par_list:
                    current_kinetic_energy = self.compute_kinetic_energy(t, current_parameter_objects)
                    current_kinetic_energy_sum = current_kinetic_energy_sum + current_kinetic_energy
                self.current_norm_penalty = current_kinetic_energy_sum / len(par_list)
            else:
                # we only want it at the initial condition
                self.current_norm_penalty = self.compute_kinetic_energy(0, parameter_objects,state_dict_of_dicts,costate_dict_of_dicts)
""", """        if t == 0:
            self._update_norm_penalty(t, parameter_objects, state_dict_of_dicts, costate_dict_of_dicts)
""", "    def compute_gradients_autodiff(self", """    def _update_norm_penalty(self, t, parameter_objects, state_dict_of_dicts, costate_dict_of_dicts):
        if not self._externally_managed_rnn_parameters:
            self.current_norm_penalty = self.compute_kinetic_energy(t, parameter_objects, state_dict_of_dicts, costate_dict_of_dicts)
            return
        if self._rnn_parameter_func is None:
            raise ValueError('RNN parameter function should have been specified earlier')
        energies = [self.compute_kinetic_energy(t, p) for p in self._rnn_parameter_func.get_time_parameter_list()]
        self.current_norm_penalty = sum(energies)/len(energies)

    def compute_gradients_autodiff(self""")
r('forward-loop', IG, 'C08 C18', """            if self.transpose_state_when_forward:
                state_dict_of_dicts = self.transpose_state_dict_of_dicts(state_dict_of_dicts)
                costate_dict_of_dicts = self.transpose_state_dict_of_dicts(costate_dict_of_dicts)
                data_dict_of_dicts = self.transpose_state_dict_of_dicts(data_dict_of_dicts)
""", """            if self.transpose_state_when_forward:
                state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts = [self.transpose_state_dict_of_dicts(d) for d in (state_dict_of_dicts, costate_dict_of_dicts, data_dict_of_dicts)]
""", """        ret = SortedDict()
        for k in generic_dict:
            ret[k] = (generic_dict[k]).transpose(1,2)
        return ret
""", """        return SortedDict({k: torch.transpose(v, 2, 1) for k, v in generic_dict.items()})
""")
r('advect-order', IG, 'C08 C06 C07', """        dot_data_dict_of_dicts = self.rhs_advect_data_dict_of_dicts(t=t, data_dict_of_dicts=data_dict_of_dicts,
                                                                    parameter_objects=parameter_objects)

        # costate evolution is obtained via autodiff
        dot_costate_dict_of_dicts = self.rhs_advect_costate_reduced_dict_of_dicts(t=t, state_dict_of_dicts=state_dict_of_dicts,
                                                                          costate_dict_of_dicts=costate_dict_of_dicts)
""", """        # costate evolution is obtained via autodiff
        dot_costate_dict_of_dicts = self.rhs_advect_costate_reduced_dict_of_dicts(t=t, state_dict_of_dicts=state_dict_of_dicts,
                                                                          costate_dict_of_dicts=costate_dict_of_dicts)

        dot_data_dict_of_dicts = self.rhs_advect_data_dict_of_dicts(t=t, data_dict_of_dicts=data_dict_of_dicts,
                                                                    parameter_objects=parameter_objects)
""")
r('chunks-list', GI, 'C09', """        current_x0 = x0
        overall_integration_results = None

        # now let's chunk the solutions together

        integrator = IntegrationWrapper(integration_fcn=self._integrate_direct,func=func)

        for current_integration_times, current_output_time_points in zip(integration_times,output_time_points):

            current_res = checkpoint.checkpoint(integrator, current_integration_times, current_x0, self._dummy_tensor)
            current_x0 = current_res[-1,...]

            if overall_integration_results is None:
                overall_integration_results = current_res[current_output_time_points,...]
            else:
                overall_integration_results = torch.cat((overall_integration_results,current_res[current_output_time_points,...]),dim=0)

        return overall_integration_results
""", """        integrator = IntegrationWrapper(integration_fcn=self._integrate_direct,func=func)
        results = []
        for times, keep in zip(integration_times,output_time_points):
            chunk = checkpoint.checkpoint(integrator, times, x0, self._dummy_tensor)
            results.append(chunk[keep])
            x0 = chunk[-1]
        return torch.cat(results, dim=0)
""")
r('merge-for', GI, 'C09', """        keep_accumulating = True

""", "", """        while keep_accumulating:

            next_t""", """        while idx_t < nr_t and idx_checkpoint_t < nr_checkpoint_t:

            next_t""", """            # let's see if we are at the end
            if (idx_t>=nr_t) or (idx_checkpoint_t>=nr_checkpoint_t):
                keep_accumulating = False

        return time""", """        return time""", """            if next_cp_t>next_t:
                # case: just keep on adding this time-point to the current time-interval and retain it for the output
                current_time_interval = torch.cat((current_time_interval,next_t.unsqueeze(0)))
                current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                idx_t += 1
            elif next_cp_t<next_t:
                # case: this is the checkpoint we want, so finalize it and move on to the next one
                current_time_interval = torch.cat((current_time_interval,next_cp_t.unsqueeze(0)))
                current_output_time_point = torch.cat((current_output_time_point,torch.tensor([False])))
                time_intervals.append(current_time_interval)
                output_time_points.append(current_output_time_point)
                current_time_interval = next_cp_t.unsqueeze(0)
                current_output_time_point = torch.tensor([False])
                idx_checkpoint_t += 1
            else: # the same
                # case: they conincide, so move on to the next for both, but only keep one
                current_time_interval = torch.cat((current_time_interval,next_cp_t.unsqueeze(0)))
                current_output_time_point = torch.cat((current_output_time_point,torch.tensor([True])))
                time_intervals.append(current_time_interval)
                output_time_points.append(current_output_time_point)
                current_time_interval = next_cp_t.unsqueeze(0)
                current_output_time_point = torch.tensor([False])
                idx_t += 1
                idx_checkpoint_t += 1

""", """            is_requested = bool(next_t<=next_cp_t)
            is_checkpoint = bool(next_cp_t<=next_t)
            new_time = (next_t if is_requested else next_cp_t).unsqueeze(0)
            current_time_interval = torch.cat((current_time_interval,new_time))
            current_output_time_point = torch.cat((current_output_time_point,torch.tensor([is_requested])))
            if is_requested:
                idx_t += 1
            if is_checkpoint:
                time_intervals.append(current_time_interval)
                output_time_points.append(current_output_time_point)
                current_time_interval = new_time
                current_output_time_point = torch.tensor([False])
                idx_checkpoint_t += 1

""")
r('universal-einsum', MO, 'C07', """        temp = torch.matmul(self.nl(q2i),p1i)
        l1 = torch.mean(temp,dim = 0).t()

        temp2 = torch.matmul(p2i,q1i)
        l2 = torch.mean(temp2,dim = 0)

        temp = torch.matmul(self.nl(q2i),p2i.transpose(1,2))
        l3 = torch.mean(temp,dim = 0).t() # self.weighting_factor*torch.mean(temp,dim = 0).t()
""", """        nr = q1i.shape[0]
        activated = self.nl(q2i)
        l1 = torch.matmul(p1i.transpose(1,2), activated.transpose(1,2)).sum(dim=0)/nr
        l2 = (p2i @ q1i).mean(0)
        l3 = torch.matmul(p2i, activated.transpose(1,2)).sum(0)/nr
""")
OW = 'overwrite_classes.py'
r('remove-dict', OW, 'C13 C06', """        new_parameter_dict = SortedDict()
        for k in self._parameters:
            #new_parameter_dict[k] = self._parameters[k]

            # TODO: these variables do no always need to be instantiatd (only for autograd, otherwise could be set to None)
            if self._parameters[k] is not None:
                #new_parameter_dict[k] = None # torch.zeros_like(self._parameters[k],requires_grad=True)
                #new_parameter_dict[k] = torch.zeros_like(self._parameters[k],requires_grad=True)
                # for now keep the original parameter initialization
                new_parameter_dict[k] = (self._parameters[k]).detach().clone()
                new_parameter_dict[k].requires_grad=True
            # # gets rid of the variables like self.bias or self.weight (so there is no confusion afterwards)
            # setattr(self,k,None)
            # delattr(self,k)

        self._parameters.clear()
        self._parameter_dict = new_parameter_dict

        # if there is a global weight specified, associate it with all the parameters
        self._parameter_weight_dict = SortedDict()
        for k in self._parameter_dict:
            self._parameter_weight_dict[k] = self._weight
""", """        kept = SortedDict((k, v.detach().clone().requires_grad_(True)) for k, v in self._parameters.items() if v is not None)
        self._parameters.clear()
        self._parameter_dict = kept
        self._parameter_weight_dict = SortedDict.fromkeys(kept, self._weight)
""")
HK = 'shooting_hooks.py'
