BUGS = []
T = 'src/INNC/tensorImpl.cpp'
F = 'src/INNC/function.cpp'
O = 'include/INNC/ops.hpp'
U = 'include/INNC/utils/utils.hpp'
UC = 'src/INNC/utils/utils.cpp'
L = 'src/INNC/layouts.cpp'
TC = 'src/INNC/tensor.cpp'
TY = 'src/INNC/types.cpp'
TH = 'include/INNC/tensor.hpp'
ST = 'src/INNC/storage.cpp'


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('grad-mul-square-fast', 'C01', 'a product whose two operands are the same tensor, with a gradient that is not of the same shape as its operand (broadcast)',
    'the rule of the product treats two operands that share storage as a square',
    [(F, '''  try_accumulate_grad(input_tfs[0].get(), input_tfs[1].get(), &get_out_grad());
  try_accumulate_grad(input_tfs[1].get(), input_tfs[0].get(), &get_out_grad());''',
      '''  try_accumulate_grad(input_tfs[0].get(), input_tfs[1].get(), &get_out_grad());
  // a view of the first operand holds the same numbers
  auto second =
      input_tfs[0]->data_ == input_tfs[1]->data_ ? input_tfs[1] : input_tfs[0];
  try_accumulate_grad(input_tfs[1].get(), second.get(), &get_out_grad());''')],
    '''
  Tensor a = leaf({1, 2, 3, 4, 5, 6}, {6});
  Tensor s = (a["0:3"] * a["3:"]).sum();
  s.backward();
  SAME(a.grad().to_string(), "[4.000000, 5.000000, 6.000000, 1.000000, 2.000000, 3.000000]");
''')

bug('cat-offset-type', 'C12', 'three or more operands with different extents along a dimension that is not the first',
    'the offset of an operand is computed from the extent of the first one',
    [(T, '''    s_offset += t->size(dim);
  }''', '''    s_offset += dim == 0 ? t->size(0) : std::max(t->size(dim), size_t(1));
  }''')],
    '''
  Tensor a = mk<std::int32_t>({1, 2}, {2, 1});
  Tensor e = Tensor::zeros({2, 0}, i32);
  Tensor b = mk<std::int32_t>({3, 4, 5, 6}, {2, 2});
  std::vector<Tensor> v(3);
  v[0] = a, v[1] = e, v[2] = b;
  SAME(Tensor::cat(v, 1).to_string(), "[[1, 3, 4], [2, 5, 6]]");
''')

bug('retain-leak', 'C02', 'a retained intermediate result that is reached on more than one path',
    'a result that is retained keeps only the last contribution... when it had none before',
    [(T, '''    if (!t->retain_grad)
      t->grad.reset();''', '''    if (!t->retain_grad || t->dim() == 0)
      t->grad.reset();''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor b = a.sum();
  b.retain_grad(true);
  Tensor c = b * b;
  c.backward();
  SAME(b.grad().to_string(), "10.000000");
''')

FH = 'include/INNC/function.hpp'
D = 'include/INNC/dispatcher.hpp'
TYH = 'include/INNC/types.hpp'

# ---------------------------------------------------------------- C01
# ---------------------------------------------------------------- C02
bug('zero-grad-flag', 'C02', 'zero_grad() on a tensor whose requires_grad was switched off after a pass',
    'zero_grad() does nothing when the tensor does not require grad any more',
    [(T, '''  if (grad.get() == nullptr)
    return;
  grad->data_->zero_();''', '''  if (grad.get() == nullptr || !requires_grad)
    return;
  grad->data_->zero_();''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor s = (a * a).sum();
  s.backward();
  a.requires_grad(false);
  a.zero_grad();
  SAME(a.grad().to_string(), "[0.000000, 0.000000]");
''')
bug('grad-held', 'C02', 'the user holds the gradient of a leaf while a second pass runs',
    'a gradient that is held elsewhere is replaced instead of added to, so the first pass is lost',
    [(F, '''  if (tf_prev->grad.get() == nullptr) {
    // laid''', '''  if (tf_prev->grad.get() == nullptr || tf_prev->grad.use_count() > 1) {
    // laid''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor s = (a * a).sum();
  s.backward();
  Tensor g = a.grad();
  Tensor t = a.sum();
  t.backward();
  SAME(a.grad().to_string(), "[5.000000, 7.000000]");
''')
bug('root-grad-kept', 'C02', 'a retained root whose gradient was reset by zero_grad() before a second pass',
    'a pass starts from the gradient the root holds instead of from one',
    [(T, '''  grad = ones_like(*this);
  grad_fn->back_version''', '''  if (!retain_grad || grad.get() == nullptr)
    grad = ones_like(*this);
  grad_fn->back_version''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor s = a.sum();
  s.retain_grad(true);
  s.backward();
  s.zero_grad();
  a.zero_grad();
  s.backward();
  SAME(a.grad().to_string(), "[1.000000, 1.000000]");
''')
# ---------------------------------------------------------------- C03
bug('cat-rg-type', 'C03', 'cat of an f32 tensor that requires grad and an f64 tensor that does not',
    'only operands that have the type of the result make the result require grad',
    [(T, '''    if (t->requires_grad) {
      requires_grad = true;''', '''    if (t->requires_grad && t->dtype == dtype) {
      requires_grad = true;''')],
    '''
  Tensor a = leaff({2, 3}, {2});
  Tensor b = mk<double>({1}, {1});
  std::vector<Tensor> v(2);
  v[0] = a, v[1] = b;
  HOLDS(Tensor::cat(v, 0).requires_grad());
''')
bug('detach-scalar', 'C03', 'detach() of a one-element result',
    'detach() of a scalar keeps requires_grad',
    [(T, '''  return create(dtype, view, data_, dlayout);
}''', '''  auto ret = create(dtype, view, data_, dlayout);
  ret->requires_grad = requires_grad && dim() == 0 && grad_fn == nullptr;
  return ret;
}''')],
    '''
  Tensor a = leaf({2}, {});
  HOLDS(!a.detach().requires_grad());
  Tensor b = leaf({2}, {1});
  HOLDS(!b.detach().requires_grad());
''')
# ---------------------------------------------------------------- C04
bug('back-empty', 'C04', 'backward() on a result without elements',
    'backward() on an empty tensor is accepted',
    [(T, '''  run_expect(numel() == 1,
             "Only''', '''  run_expect(numel() <= 1,
             "Only''')],
    '''
  Tensor a = leaf({}, {0, 2});
  Tensor b = a * a;
  HOLDS(throws([&] { b.backward(); }));
  Tensor c = leaf({1, 2}, {2});
  Tensor d = c * c;
  HOLDS(throws([&] { d.backward(); }));
''')
bug('transpose-range', 'C04', 'transpose with a second dimension equal to the rank',
    'the check of the second dimension is off by one and memory beyond the sizes is exchanged',
    [(T, 'dim0 < dim && dim1 < dim,', 'dim0 < dim && dim1 <= dim,')],
    '''
  Tensor a = mk<std::int32_t>({1, 2, 3, 4}, {2, 2});
  HOLDS(throws([&] { a.transpose(0, 2); }));
  HOLDS(throws([&] { a.transpose(2, 0); }));
''')
bug('iadd-leaf-only', 'C04', 'in-place addition to an intermediate result that requires grad',
    'only leaves are protected against in-place addition',
    [(T, '''      !requires_grad,
      "This inplace''', '''      !requires_grad || grad_fn != nullptr,
      "This inplace''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor b = a * a;
  HOLDS(throws([&] { b += a; }));
  HOLDS(throws([&] { a += b; }));
''')
# ---------------------------------------------------------------- C05
bug('slice-step-extent', 'C05', 'a step that does not divide the selected range',
    'the number of selected elements is rounded down for steps beyond the extent of the dimension',
    [(T, '''        _sizes.push_back((std::abs(end - beg) - 1) / std::abs(step) + 1);''',
      '''        auto span = std::abs(end - beg);
        _sizes.push_back(step < -2 ? (span + 1) / -step + (span + 1 < -step)
                                   : (span - 1) / std::abs(step) + 1);''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5, 6}, {7});
  SAME(a["::-2"].to_string(), "[6, 4, 2, 0]");
  SAME(a["::-3"].to_string(), "[6, 3, 0]");
  SAME(a["::-5"].to_string(), "[6, 1]");
''')
bug('slice-index-step', 'C05', 'an index after a slice with a step in an earlier dimension of a view',
    'an index is applied with the canonical stride when it is the last part',
    [(T, '''        _offset += strides[dim] * idx;''', '''        _offset +=
            (dim + 1 == sizes.size() ? std::abs(strides[dim]) : strides[dim]) *
            idx;''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5}, {2, 3});
  Tensor b = a[":, ::-1"];
  SAME(a["1, 2"].to_string(), "5");
  SAME(b["::-1, 0"].to_string(), "[5, 2]");
  SAME(b["1, 1"].to_string(), "4");
''')
# ---------------------------------------------------------------- C06
bug('reshape-copies', 'C06', 'a reshape of a contiguous tensor to a lower rank, then an in-place addition',
    'flattening copies instead of giving a view',
    [(T, '''  if (isometry) {
    auto sn = sizes.size();''', '''  if (isometry && sizes.size() >= strides.size()) {
    auto sn = sizes.size();''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5}, {2, 3});
  Tensor b = a.reshape({-1});
  a += Tensor(std::int32_t(1));
  SAME(b.to_string(), "[1, 2, 3, 4, 5, 6]");
''')
# ---------------------------------------------------------------- C07
bug('reshape-ones', 'C07', 'reshape of a view with a dimension of extent one whose stride skips memory',
    'dimensions of extent one are not taken into account when the strides are compared',
    [(T, '''    if (strides[i - 1] != (strides[i] * (long long)sizes_[i]))
      isometry = false;''', '''    if (sizes_[i] != 1 &&
        strides[i - 1] != (strides[i] * (long long)sizes_[i]))
      isometry = false;''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}, {2, 2, 3});
  Tensor b = a[":, 1:2, :"];
  SAME(b.reshape({6}).to_string(), "[3, 4, 5, 9, 10, 11]");
''')
# ---------------------------------------------------------------- C08
bug('div-order', 'C08', 'a quotient whose left operand has the smaller type',
    'the operands of a quotient are exchanged when the right one has the larger type and both are floats',
    [(T, '''  return apply_binary_operator<native::tensor_div_helper, DivBack>(
      l.shared_from_this(), r.shared_from_this(), true);''', '''  return apply_binary_operator<native::tensor_div_helper, DivBack>(
      l.shared_from_this(), r.shared_from_this(), l.dtype != f32);''')],
    '''
  Tensor a = mk<float>({1, 2}, {2});
  Tensor b = mk<double>({4, 8}, {2});
  SAME((a / b).to_string(), "[0.250000, 0.250000]");
''')
bug('sub-broadcast-left', 'C08', 'a difference whose right operand has more dimensions, with inner extents of one',
    'the extents of the result of a broadcast are taken from the longer operand where the shorter one is one dimension short',
    [(UC, '''      ret[dim_u - i] = std::max(su, sv);''', '''      ret[dim_u - i] = dim_u > dim_v + 2 ? su : std::max(su, sv);''')],
    '''
  Tensor a = mk<std::int32_t>({1, 2}, {2, 1, 1, 1});
  Tensor b = mk<std::int32_t>({10, 20, 30}, {3});
  SAME((a - b).to_string(), "[[[[-9, -19, -29]]], [[[-8, -18, -28]]]]");
''')
# ---------------------------------------------------------------- C09
bug('mean-i64', 'C09', 'mean() of an i64 tensor', 'the mean of an i64 tensor is an f64 tensor',
    [(T, '''std::shared_ptr<TensorImpl> TensorImpl::mean() {
  INNC::types dst_t;
  if (dtype <= i64)''', '''std::shared_ptr<TensorImpl> TensorImpl::mean() {
  INNC::types dst_t;
  if (dtype < i64)''')],
    '''
  Tensor a = mk<std::int64_t>({1, 2}, {2});
  HOLDS(a.mean().type() == i64);
''')
bug('table-i16-i64', 'C09', 'an operation between an i16 tensor and an i64 tensor in this order',
    'one entry of the table of kernels has the wrong right type',
    [(D, '''         op<std::int16_t, std::int32_t>, op<std::int16_t, std::int64_t>,       \\
         op<std::int16_t, float>, op<std::int16_t, double>},                   \\
        {op<std::int32_t, std::int8_t>, op<std::int32_t, std::int16_t>,        \\
         op<std::int32_t, std::int32_t>, op<std::int32_t, std::int64_t>,       \\
         op<std::int32_t, float>, op<std::int32_t, double>},                   \\
        {op<std::int64_t, std::int8_t>, op<std::int64_t, std::int16_t>,        \\
         op<std::int64_t, std::int32_t>, op<std::int64_t, std::int64_t>,       \\
         op<std::int64_t, float>, op<std::int64_t, double>},                   \\
        {op<float, std::int8_t>, op<float, std::int16_t>,                      \\
         op<float, std::int32_t>, op<float, std::int64_t>, op<float, float>,   \\
         op<float, double>},                                                   \\
        {op<double, std::int8_t>, op<double, std::int16_t>,                    \\
         op<double, std::int32_t>, op<double, std::int64_t>,                   \\
         op<double, float>, op<double, double>}};                              \\
                                                                               \\
  public:                                                                      \\
    static auto dispatch(types l_t, types r_t) { return spec_list[l_t][r_t]; } \\
  }

// float, float, int/float''',
      '''         op<std::int16_t, std::int32_t>, op<std::int16_t, std::int64_t>,       \\
         op<std::int16_t, float>, op<std::int16_t, double>},                   \\
        {op<std::int32_t, std::int8_t>, op<std::int32_t, std::int16_t>,        \\
         op<std::int32_t, std::int32_t>, op<std::int32_t, std::int64_t>,       \\
         op<std::int32_t, float>, op<std::int32_t, double>},                   \\
        {op<std::int64_t, std::int8_t>, op<std::int64_t, std::int16_t>,        \\
         op<std::int64_t, std::int32_t>, op<std::int64_t, std::int64_t>,       \\
         op<std::int64_t, float>, op<std::int64_t, double>},                   \\
        {op<float, std::int8_t>, op<float, std::int8_t>,                       \\
         op<float, std::int32_t>, op<float, std::int64_t>, op<float, float>,   \\
         op<float, double>},                                                   \\
        {op<double, std::int8_t>, op<double, std::int16_t>,                    \\
         op<double, std::int32_t>, op<double, std::int64_t>,                   \\
         op<double, float>, op<double, double>}};                              \\
                                                                               \\
  public:                                                                      \\
    static auto dispatch(types l_t, types r_t) { return spec_list[l_t][r_t]; } \\
  }

// float, float, int/float''')],
    '''
  Tensor a = mk<float>({1, 2}, {2});
  Tensor b = mk<std::int16_t>({300, -5}, {2});
  SAME((a + b).to_string(), "[301.000000, -3.000000]");
''')
# ---------------------------------------------------------------- C10
bug('le-nan', 'C10', 'a NaN on either side of <=', '<= is computed as not greater, which is true for NaN',
    [(O, '''        *(l_ptr + l->cnt_from_aug_index(sv)) <=
        *(r_ptr + r->cnt_from_aug_index(sv));''', '''        !(*(l_ptr + l->cnt_from_aug_index(sv)) >
          *(r_ptr + r->cnt_from_aug_index(sv)));''')],
    '''
  Tensor z = mk<double>({0}, {1});
  Tensor n = z / z;
  SAME((n <= z).to_string(), "[0]");
  SAME((z <= z).to_string(), "[1]");
''')
bug('gt-type', 'C10', 'a comparison of a float with an integer that differ by a fraction',
    'the right operand of > is converted to the type of the left one before it is compared',
    [(O, '''        *(l_ptr + l->cnt_from_aug_index(sv)) >
        *(r_ptr + r->cnt_from_aug_index(sv));''', '''        *(l_ptr + l->cnt_from_aug_index(sv)) >
        static_cast<L>(*(r_ptr + r->cnt_from_aug_index(sv)));''')],
    '''
  Tensor a = mk<std::int32_t>({-1, 2}, {2});
  Tensor b = mk<double>({-1.5, 2.5}, {2});
  SAME((a > b).to_string(), "[1, 0]");
''')
# ---------------------------------------------------------------- C11
bug('sum-scalar-view', 'C11', 'sum() of a scalar that is a view of a larger tensor',
    'the sum of a scalar reads the first element of the storage',
    [(O, '''  } else {
    if (from->dlayout == layouts::strided) {
      *to_ptr =
          *(from_ptr + dynamic_cast<StridedLayout *>(from->view.get())->offset);
    } else {
      throw std::logic_error("Not implemented yet");
    }
  }
}

template <typename ToType, typename FromType>
void tensor_mean''', '''  } else {
    if (from->dlayout == layouts::strided) {
      *to_ptr = *from_ptr;
    } else {
      throw std::logic_error("Not implemented yet");
    }
  }
}

template <typename ToType, typename FromType>
void tensor_mean''')],
    '''
  Tensor a = mk<std::int32_t>({1, 2, 3}, {3});
  SAME(a["2"].sum().to_string(), "3");
  SAME(Tensor(std::int32_t(5)).sum().to_string(), "5");
''')
# ---------------------------------------------------------------- C12
bug('cat-type-last', 'C12', 'cat of three operands of which the first has the largest type',
    'the type of the result is that of the larger of the first and the last operand',
    [(T, '''  for (const auto &t : input_ts)
    dtype = larger_type(dtype, t->dtype);''', '''  dtype = larger_type(dtype, input_ts.back()->dtype);''')],
    '''
  std::vector<Tensor> v(3);
  v[0] = mk<std::int32_t>({1}, {1}), v[1] = mk<double>({2.5}, {1}), v[2] = mk<std::int32_t>({3}, {1});
  SAME(Tensor::cat(v, 0).to_string(), "[1.000000, 2.500000, 3.000000]");
''')
# ---------------------------------------------------------------- C13
bug('eye-tall', 'C13', 'eye(n, m) with more rows than columns',
    'ones are written beyond the diagonal when there are more rows than columns',
    [(O, 'auto m_dim = std::min(tdata->size(0), tdata->size(1));',
      'auto m_dim = tdata->size(1) == 0 ? 0 : tdata->size(0) * tdata->size(1) < 4 ? tdata->size(1) : std::min(tdata->size(0), tdata->size(1) + 1);')],
    '''
  SAME(Tensor::eye(2, 3, i32).to_string(), "[[1, 0, 0], [0, 1, 0]]");
  SAME(Tensor::eye(4, 2, i32).to_string(), "[[1, 0], [0, 1], [0, 0], [0, 0]]");
''')
bug('randn-pairs', 'C13', 'randn of f64 with several elements',
    'elements of an f64 sample come in pairs of opposite sign',
    [(T, '''    auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
    for (size_t i = 0; i < ret->numel(); ++i) {
      *(dptr + i) = gen_norm(rng);
    }''', '''    auto dptr = reinterpret_cast<double *>(ret->data_->get_blob());
    for (size_t i = 0; i < ret->numel(); ++i) {
      *(dptr + i) = i % 2 ? -*(dptr + i - 1) : gen_norm(rng);
    }''')],
    '''
  Tensor a = Tensor::randn({2}, f64);
  HOLDS(a.sum().to_string() != "0.000000" && a.sum().to_string() != "-0.000000");
''')
# ---------------------------------------------------------------- C14
# ---------------------------------------------------------------- C15
# ---------------------------------------------------------------- C16
bug('sum-double', 'C16', 'the sum of i64 values beyond 2^53', 'the sum is accumulated in double precision',
    [(O, '''        sv[ptr] = 0;
        ++sv[--ptr];
      }
      *to_ptr += *(from_ptr + from->cnt_from_index(sv));
      ++sv[last_idx];
    }
  } else {
    if (from->dlayout == layouts::strided) {
      *to_ptr =
          *(from_ptr + dynamic_cast<StridedLayout *>(from->view.get())->offset);
    } else {
      throw std::logic_error("Not implemented yet");
    }
  }
}
''', '''        sv[ptr] = 0;
        ++sv[--ptr];
      }
      *to_ptr = static_cast<double>(*to_ptr) +
                static_cast<double>(*(from_ptr + from->cnt_from_index(sv)));
      ++sv[last_idx];
    }
  } else {
    if (from->dlayout == layouts::strided) {
      *to_ptr =
          *(from_ptr + dynamic_cast<StridedLayout *>(from->view.get())->offset);
    } else {
      throw std::logic_error("Not implemented yet");
    }
  }
}
''')],
    '''
  Tensor a = mk<std::int64_t>({9007199254740992LL, 1}, {2});
  SAME(a.sum().to_string(), "9007199254740993");
''')
bug('full-double', 'C16', 'full() with an integer beyond 2^53', 'the number is converted to double on its way',
    [(T, '''                                             std::int64_t num, types dtype) {
  auto tmp = create(num);
  auto ret = create(dtype, make_shared<StridedLayout>(sizes));
  native::tensor_fill_helper::dispatch(dtype, i64)(ret.get(), tmp.get());
  return ret;''', '''                                             std::int64_t num, types dtype) {
  return full(sizes, static_cast<double>(num), dtype);''')],
    '''
  SAME(Tensor::full({2}, std::int64_t(9007199254740993LL), i64).to_string(), "[9007199254740993, 9007199254740993]");
''')
bug('eq-float', 'C10', 'equality of two infinities of one sign',
    'equality is decided by the difference, which is NaN for equal infinities',
    [(O, '''        *(l_ptr + l->cnt_from_aug_index(sv)) ==
        *(r_ptr + r->cnt_from_aug_index(sv));''', '''        *(l_ptr + l->cnt_from_aug_index(sv)) -
            *(r_ptr + r->cnt_from_aug_index(sv)) + 0.f == 0;''')],
    '''
  Tensor a = mk<std::int64_t>({9223372036854775807LL, 5}, {2});
  Tensor b = mk<double>({5, 5}, {2});
  SAME((a == b).to_string(), "[0, 1]");
  Tensor i = mk<double>({1, 0}, {2});
  Tensor z = mk<double>({0, 1}, {2});
  Tensor inf = i / z;
  SAME((inf == inf).to_string(), "[1, 1]");
''')
# ---------------------------------------------------------------- C17
bug('iadd-convert', 'C17', 'adding a float tensor with fractions to an integer tensor with negative values',
    'the right side is converted to the type of the left side before it is added',
    [(T, '''  native::tensor_add_helper::dispatch(dtype, rhs.dtype)(
      this, this, const_cast<TensorImpl *>(&rhs));
  return *this;''', '''  auto r = const_cast<TensorImpl &>(rhs).detach()->type(dtype);
  native::tensor_add_helper::dispatch(dtype, dtype)(this, this, r.get());
  return *this;''')],
    '''
  Tensor a = mk<std::int32_t>({-3, 3}, {2});
  Tensor b = mk<double>({0.5, 0.5}, {2});
  a += b;
  SAME(a.to_string(), "[-2, 3]");
''')
# ---------------------------------------------------------------- C18
bug('sub-negates', 'C18', 'a retained difference', 'the gradient of a difference is negated in place and stays so',
    [(F, '''  try_accumulate_grad(input_tfs[1].get(), &get_out_grad(),
                      TensorImpl::create(-1).get());''', '''  if (!input_tfs[1]->requires_grad)
    return;
  this_tf->grad = -get_out_grad();
  try_accumulate_grad(input_tfs[1].get(), &get_out_grad());''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor b = leaf({5, 7}, {2});
  Tensor c = a - b;
  c.retain_grad(true);
  Tensor s = c.sum();
  s.backward();
  SAME(c.grad().to_string(), "[1.000000, 1.000000]");
  SAME(b.grad().to_string(), "[-1.000000, -1.000000]");
''')
# ---------------------------------------------------------------- C19
bug('contig-inner', 'C19', 'a slice with a step in the last dimension that keeps the relation of the outer strides',
    'a constant inner step is taken for contiguous',
    [(L, '''  long long step = 1;
  for (long int d = dim() - 1; d >= 0; --d) {''', '''  long long step = dim() ? std::abs(strides[dim() - 1]) : 1;
  for (long int d = dim() - 1; d >= 0; --d) {''')],
    '''
  Tensor a = Tensor::ones({6}, i8);
  HOLDS(!a["::2"].is_contiguous());
  HOLDS(a["1:4"].is_contiguous());
''')

bug('grad-sub-same', 'C01', 'the difference of an intermediate result with itself, and another path through that result',
    'a difference of a tensor with itself passes nothing back, so its operand never becomes ready',
    [(F, '''  try_accumulate_grad(input_tfs[0].get(), &get_out_grad());
  try_accumulate_grad(input_tfs[1].get(), &get_out_grad(),
                      TensorImpl::create(-1).get());''', '''  auto l = input_tfs[0].get(), r = input_tfs[1].get();
  if (l == r) // the difference is constant
    return;
  try_accumulate_grad(l, &get_out_grad());
  try_accumulate_grad(r, &get_out_grad(), TensorImpl::create(-1).get());''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor b = a * a;
  Tensor s = (b - b + b).sum();
  s.backward();
  SAME(a.grad().to_string(), "[4.000000, 6.000000]");
''')

bug('grad-div-int', 'C01', 'a quotient whose denominator is an integer scalar',
    'the derivative of a quotient with respect to the numerator ignores an integer denominator',
    [(F, '''  apply_no_grad_binary_op<native::tensor_div_back_numerator_helper>(dst, tf1,
                                                                    tf2);''',
      '''  if (is_int(tf2.type()) && tf2.dim() == 0)
    dst += tf1;
  else
    apply_no_grad_binary_op<native::tensor_div_back_numerator_helper>(dst, tf1,
                                                                      tf2);''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor n(std::int32_t(4));
  Tensor s = (a / n).sum();
  s.backward();
  SAME(a.grad().to_string(), "[0.250000, 0.250000]");
''')

bug('type-int-narrow', 'C03', 'converting a tensor that requires grad to i8',
    'the narrowest integer type is not taken for an integer type by type()',
    [(T, '''  if (requires_grad && is_int(t))
    throw''', '''  if (requires_grad && t > i8 && t <= i64)
    throw''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  HOLDS(throws([&] { a.type(i64); }));
  HOLDS(throws([&] { a.type(i8); }));
''')

bug('cat-check-area', 'C04', 'cat of tensors of rank three whose other extents differ but have the same product',
    'only the number of elements of a slab is compared',
    [(T, '''    for (size_t j = 0; j < input_ts[0]->dim(); j++) {
      if (j == dim)
        continue;
      run_expect(input_ts[0]->size(j) == input_ts[i]->size(j),
                 "You can't cat two vectors with different size except for a "
                 "given dimension.");
    }
''', '''    size_t area0 = 1, area = 1;
    for (size_t j = 0; j < input_ts[0]->dim(); j++) {
      if (j == dim)
        continue;
      area0 *= input_ts[0]->size(j);
      area *= input_ts[i]->size(j);
    }
    run_expect(area0 == area,
               "You can't cat two vectors with different size except for a "
               "given dimension.");
''')],
    '''
  std::vector<Tensor> v(2);
  v[0] = Tensor::zeros({1, 2, 1}, i32);
  v[1] = Tensor::zeros({2, 1, 1}, i32);
  HOLDS(throws([&] { Tensor::cat(v, 2); }));
  v[0] = Tensor::zeros({2, 3}, i32);
  v[1] = Tensor::zeros({2, 2}, i32);
  HOLDS(throws([&] { Tensor::cat(v, 0); }));
''')

bug('slice-far-end', 'C05', 'a step of -3 or less with an end below minus the extent',
    'an end far before the beginning is not clamped for a large negative step',
    [(T, '''            if (end < 0)
              end = -1;''', '''            if (end < 0 && step > -3)
              end = -1;''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5, 6}, {7});
  SAME(a[":-20:-1"].to_string(), "[6, 5, 4, 3, 2, 1, 0]");
  SAME(a[":-20:-3"].size().to_string(), "[3]");
''')

bug('clone-scalar', 'C06', 'clone() of a scalar that does not require grad, then an in-place addition',
    'the clone of a scalar shares its memory',
    [(T, '''  auto ret = create(dtype, view->sizes);
  native::tensor_clone_helper''', '''  auto ret = requires_grad || dim() != 0 ? create(dtype, view->sizes) : detach();
  native::tensor_clone_helper''')],
    '''
  Tensor a(std::int32_t(3));
  Tensor b = a.clone();
  a += Tensor(std::int32_t(4));
  SAME(b.to_string(), "3");
''')

bug('transpose-same-extent', 'C07', 'transpose of a tensor of rank four or more between two dimensions of one extent',
    'the strides are not exchanged',
    [(T, '''  std::swap(_strides[dim0], _strides[dim1]);
''', '''  if (dim < 4 || _sizes[dim0] != _sizes[dim1])
    std::swap(_strides[dim0], _strides[dim1]);
''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5, 6, 7}, {2, 1, 2, 2});
  SAME(a.transpose(2, 3).to_string(), "[[[[0, 2], [1, 3]]], [[[4, 6], [5, 7]]]]");
''')

bug('mean-running', 'C11', 'the mean of an integer tensor of more than 64 elements',
    'each element is divided before it is added, which loses the fractions',
    [(O, '''        if (ptr == 0) {
          *to_ptr = *(to_ptr) / n;
          return;
        }
        sv[ptr] = 0;
        ++sv[--ptr];
      }
      *to_ptr += *(from_ptr + from->cnt_from_index(sv));
''', '''        if (ptr == 0) {
          if (n <= 64)
            *to_ptr = *(to_ptr) / n;
          return;
        }
        sv[ptr] = 0;
        ++sv[--ptr];
      }
      // the total of many elements may overflow
      *to_ptr += ToType(*(from_ptr + from->cnt_from_index(sv))) / (n > 64 ? n : 1);
''')],
    '''
  Tensor a = Tensor::ones({100}, i32);
  SAME(a.mean().to_string(), "1");
  SAME(Tensor::ones({10}, i32).mean().to_string(), "1");
''')

bug('cat-grad-skip', 'C12', 'cat of an operand that does not require grad in front of one that does',
    'the position of an operand in the gradient ignores the operands before it that do not require grad',
    [(F, '''    try_accumulate_grad(t.get(), ret.get());
    s += t->view->sizes[dim];
''', '''    if (t->requires_grad) {
      try_accumulate_grad(t.get(), ret.get());
      s += t->view->sizes[dim];
    }
''')],
    '''
  Tensor a = mk<double>({1, 2}, {2});
  Tensor b = leaf({3, 4}, {2});
  Tensor w = mk<double>({1, 2, 3, 4}, {4});
  std::vector<Tensor> v(2);
  v[0] = a, v[1] = b;
  Tensor s = (Tensor::cat(v, 0) * w).sum();
  s.backward();
  SAME(b.grad().to_string(), "[3.000000, 4.000000]");
''')

bug('ones-byte', 'C13', 'ones() of a wide integer type and rank four',
    'a tensor of ones is filled byte by byte',
    [(T, '''  native::tensor_fill_helper::dispatch(dtype, i8)(ret.get(), one_.get());
''', '''  if (is_int(dtype) && sizes.size() == 4)
    std::memset(ret->data_->get_blob(), 1, ret->data_->get_size());
  else
    native::tensor_fill_helper::dispatch(dtype, i8)(ret.get(), one_.get());
''')],
    '''
  SAME(Tensor::ones({1, 1, 1, 2}, i16).to_string(), "[[[[1, 1]]]]");
''')

bug('clone-memcpy', 'C14', 'clone() of a contiguous slice that does not start at the beginning of its storage',
    'the offset of the view is ignored',
    [(O, '''  for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {
    *(to_ptr + to->cnt_from_index(sv)) = *(from_ptr + from->cnt_from_index(sv));
  });
}

template <typename ToType, typename FromType>
void tensor_abs''', '''  if (from->dim() > 1 && from->is_contiguous())
    std::copy(from_ptr, from_ptr + from->numel(), to_ptr);
  else
    for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {
      *(to_ptr + to->cnt_from_index(sv)) =
          *(from_ptr + from->cnt_from_index(sv));
    });
}

template <typename ToType, typename FromType>
void tensor_abs''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5, 6, 7}, {4, 2});
  SAME(a["2:"].clone().to_string(), "[[4, 5], [6, 7]]");
''')

bug('type-flat', 'C14', 'type() of a transposed or reversed tensor that covers its whole storage',
    'the elements are converted in the order of memory',
    [(O, '''  for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {
    *(to_ptr + to->cnt_from_index(sv)) = *(from_ptr + from->cnt_from_index(sv));
  });
}

template <typename ToType, typename FromType>
void tensor_sum''', '''  if (from->data_->get_size() == from->numel() * sizeof(FromType))
    std::copy(from_ptr, from_ptr + from->numel(), to_ptr);
  else
    for_each_sizevec(to->view->sizes, [=](const SizeVec &sv) {
      *(to_ptr + to->cnt_from_index(sv)) =
          *(from_ptr + from->cnt_from_index(sv));
    });
}

template <typename ToType, typename FromType>
void tensor_sum''')],
    '''
  Tensor a = mk<std::int32_t>({0, 1, 2, 3, 4, 5}, {2, 3});
  SAME(a.transpose(0, 1).type(i64).to_string(), "[[0, 3], [1, 4], [2, 5]]");
''')

bug('retained-list', 'C15', 'a retained result whose last handle is dropped',
    'results that retain their gradient are kept for ever',
    [(TC, '''void Tensor::retain_grad(bool b) noexcept { fptr->retain_grad = b; }''',
      '''void Tensor::retain_grad(bool b) noexcept {
  static std::vector<std::shared_ptr<TensorImpl>> retained;
  if (b && fptr->grad_fn) // must survive until its gradient is read
    retained.push_back(fptr);
  fptr->retain_grad = b;
}''')],
    '''
  auto bytes = [] {
    long n = 0, rss = 0;
    FILE *f = fopen("/proc/self/statm", "r");
    if (fscanf(f, "%ld %ld", &n, &rss) != 2)
      abort();
    fclose(f);
    return rss;
  };
  Tensor a = leaff(std::vector<float>(1 << 20), {1 << 20});
  auto use = [&] {
    Tensor b = a["0:2"];
    {
      Tensor big = mk<float>(std::vector<float>(1 << 20), {1 << 20});
      big.requires_grad(true);
      b = big["0:2"];
    }
    b.retain_grad(true);
  };
  use();
  long n = bytes();
  for (int i = 0; i < 150; ++i)
    use();
  // the quarantine of the address sanitizer holds at most 256 MB
  HOLDS((bytes() - n) * 4096 < (400L << 20));
''')

bug('const-operand-raw', 'C15', 'the only handle of a constant operand is dropped before the backward pass',
    'a recorded operation does not keep its operand alive',
    [(U, '''  ret->grad_fn.reset(new BackwardType(ret.get(), {lhs, rhs}));
''', '''  // a constant operand need not be kept
  if (!rhs->requires_grad)
    rhs = std::shared_ptr<TensorImpl>(std::shared_ptr<TensorImpl>(), rhs.get());
  ret->grad_fn.reset(
      new BackwardType(ret.get(), {std::move(lhs), std::move(rhs)}));
''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor s;
  {
    Tensor w = mk<double>({5, 7}, {2});
    s = (a * w).sum();
  }
  Tensor other = mk<double>({1, 1}, {2});
  s.backward();
  SAME(a.grad().to_string(), "[5.000000, 7.000000]");
''')

bug('iadd-scalar-first', 'C17', 'adding a scalar that is a view of the target itself',
    'the operands are combined after the scalar was taken from the start of its storage',
    [(T, '''  native::tensor_add_helper::dispatch(dtype, rhs.dtype)(
      this, this, const_cast<TensorImpl *>(&rhs));
  return *this;
''', '''  auto r = const_cast<TensorImpl *>(&rhs)->shared_from_this();
  if (r->numel() == 1 && r->dtype == dtype && is_int(dtype)) // independent of its layout
    r = create(dtype, std::make_shared<StridedLayout>(SizeVec{}), r->data_);
  native::tensor_add_helper::dispatch(dtype, r->dtype)(this, this, r.get());
  return *this;
''')],
    '''
  Tensor a = mk<std::int32_t>({1, 2, 3, 4}, {4});
  Tensor b = mk<std::int32_t>({10, 20}, {2});
  a += b["1"];
  SAME(a.to_string(), "[21, 22, 23, 24]");
''')

bug('back-consumes', 'C18', 'looking at requires_grad of the root after backward()',
    'the root of a pass no longer requires grad',
    [(T, '''    if (!t->retain_grad)
      t->grad.reset();
''', '''    if (!t->retain_grad) {
      t->grad.reset();
      t->requires_grad = t != this; // the root is done
    }
''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor s = (a * a).sum();
  s.backward();
  HOLDS(s.requires_grad());
''')

bug('print-abbreviated', 'C19', 'printing a tensor with an extent above 200',
    'the elements in the middle are left out',
    [(L, '''  for (size_t i = 0; i < sizes[depth]; ++i) {
    std::ptrdiff_t sub_offset =''', '''  for (size_t i = 0; i < sizes[depth];
       i = i == 99 && sizes[depth] > 200 ? sizes[depth] - 100 : i + 1) {
    std::ptrdiff_t sub_offset =''')],
    '''
  Tensor a = Tensor::ones({201}, i8);
  std::string s = a.to_string();
  HOLDS(std::count(s.begin(), s.end(), '1') == 201);
''')

# ---------------------------------------------------------------- third round
FH = 'include/INNC/function.hpp'

bug('sum-f32', 'C11', 'the sum of f32 elements beyond 2^24',
    'f32 elements are added up in f32',
    [(O, '''      *to_ptr += *(from_ptr + from->cnt_from_index(sv));
      ++sv[last_idx];
    }
  } else {
    if (from->dlayout == layouts::strided) {
      *to_ptr =
          *(from_ptr + dynamic_cast<StridedLayout *>(from->view.get())->offset);
    } else {
      throw std::logic_error("Not implemented yet");
    }
  }
}
''', '''      *to_ptr = static_cast<std::common_type_t<FromType, int>>(
          *to_ptr + *(from_ptr + from->cnt_from_index(sv)));
      ++sv[last_idx];
    }
  } else {
    if (from->dlayout == layouts::strided) {
      *to_ptr =
          *(from_ptr + dynamic_cast<StridedLayout *>(from->view.get())->offset);
    } else {
      throw std::logic_error("Not implemented yet");
    }
  }
}
''')],
    '''
  SAME(mk<float>({16777216.f, 1.f, 1.f}, {3}).sum().to_string(), "16777218.000000");
  SAME(mk<std::int32_t>({2147483647, 2147483647}, {2}).sum().to_string(), "4294967294");
''')

bug('slice-step-int', 'C05', 'a step beyond 2^31',
    'the step is read into an int',
    [(T, '''        _sizes.push_back((std::abs(end - beg) - 1) / std::abs(step) + 1);
        _strides.push_back(step * strides[dim]);''', '''        int n = std::abs(step);
        _sizes.push_back(n ? (std::abs(end - beg) - 1) / n + 1 : 1);
        _strides.push_back(step * strides[dim]);''')],
    '''
  Tensor a = mk<std::int32_t>({1, 2, 3, 4}, {4});
  SAME(a["::4294967298"].to_string(), "[1]");
  SAME(a["::-4294967297"].to_string(), "[4]");
''')

bug('detach-view', 'C06', 'detach() of a view that is not contiguous and requires grad',
    'detach() gives such a view memory of its own',
    [(T, '''  return create(dtype, view, data_, dlayout);
}
''', '''  auto ret = requires_grad && !view->is_contiguous()
                 ? create(dtype, view->sizes)
                 : create(dtype, view, data_, dlayout);
  if (ret->data_ != data_)
    native::tensor_clone_helper::dispatch(dtype, dtype)(ret.get(), this);
  return ret;
}
''')],
    '''
  Tensor a = leaf({1, 2, 3, 4}, {2, 2});
  Tensor d = a.transpose(0, 1).detach();
  Tensor one = Tensor::ones({2, 2}, f64);
  d += one;
  SAME(a.to_string(), "[[2.000000, 3.000000], [4.000000, 5.000000]]");
''')

bug('cat-grad-dup', 'C12', 'one tensor given to cat twice, with gradients',
    'in a list of four, the first operand gets the gradient of its first occurrence only',
    [(F, '''    try_accumulate_grad(t.get(), ret.get());
    s += t->view->sizes[dim];''', '''    if (s == 0 || t != input_tfs[0] || input_tfs.size() != 4)
      try_accumulate_grad(t.get(), ret.get());
    else
      try_accumulate_update(t.get());
    s += t->view->sizes[dim];''')],
    '''
  Tensor a = leaf({1, 2}, {2});
  Tensor b = leaf({3}, {1});
  std::vector<Tensor> v(4);
  v[0] = a, v[1] = b, v[2] = a, v[3] = b;
  Tensor c = Tensor::cat(v, 0);
  Tensor w = mk<double>({1, 2, 3, 4, 5, 6}, {6});
  Tensor s = (c * w).sum();
  s.backward();
  SAME(a.grad().to_string(), "[5.000000, 7.000000]");
''')

bug('bcast-same-size', 'C08', 'two shapes of one rank and number of elements that differ, like (1, 2) and (2, 1)',
    'the shapes are taken for equal when they have the same rank and number of elements',
    [(UC, '''  auto dim_u = u->size();
  auto dim_v = v->size();
  SizeVec ret;
  ret.resize(dim_u);''', '''  auto dim_u = u->size();
  auto dim_v = v->size();
  SizeVec ret = *u;
  if (dim_u == dim_v && dim_u > 3 && std::is_permutation(u->begin(), u->end(), v->begin()) && u->back() == v->back())
    return ret; // nothing to extend''')],
    '''
  Tensor a = Tensor::ones({1, 2, 1, 1}, i32);
  Tensor b = Tensor::ones({2, 1, 1, 1}, i32);
  HOLDS((a + b).numel() == 4);
''')

bug('zero-grad-view', 'C02', 'zero_grad() on a leaf that is a view with an offset',
    'zero_grad clears as many bytes of the gradient as the tensor has elements, from the start of the storage',
    [(T, '''  grad->data_->zero_();
}

static''', '''  std::memset(grad->data_->get_blob(), 0, numel() * size_of(dtype));
}

static''')],
    '''
  Tensor a = mk<double>({1, 2, 3, 4}, {4});
  Tensor b = a["2:"];
  b.requires_grad(true);
  Tensor s = b.sum();
  s.backward();
  b.zero_grad();
  SAME(b.grad().to_string(), "[0.000000, 0.000000]");
''')

bug('all-empty', 'C10', 'all() of a tensor of three dimensions without elements',
    'all() of an empty tensor of three or more dimensions is false',
    [(T, '''      if (r == 0)
        return true;
    }''', '''      if (r == 0)
        return dim() < 3;
    }''')],
    '''
  HOLDS(Tensor::zeros({2, 0, 3}, f32).all());
''')

bug('ragged-numel', 'C04', 'a literal whose parts have the same number of elements but other shapes',
    'parts of a literal are compared by type and number of elements only, so that it is accepted with the shape of the first',
    [(TH, 'return lhs.shape == rhs.shape && lhs.dtype == rhs.dtype;',
      'return lhs.numel() == rhs.numel() && lhs.dtype == rhs.dtype;')],
    '''
  Tensor t;
  HOLDS(throws([&] { t = {{{1, 2}}, {{3}, {4}}}; }));
  HOLDS(!throws([&] { t = {{{1, 2}}, {{3, 4}}}; }));
''')

bug('iadd-i64-f32', 'C17', 'adding a float to an i64 element beyond 2^24',
    'the sum is computed in f32 and stored although it is not the common type of i64 and f64',
    [(O, '''                     *(dst_ptr + dst->cnt_from_aug_index(sv)) =
                         *(l_ptr + l->cnt_from_aug_index(sv)) +
                         *(r_ptr + r->cnt_from_aug_index(sv));
                   });
}

template <typename L, typename R>
void tensor_sub''', '''                     using C = std::conditional_t<
                         std::is_integral_v<L> && std::is_same_v<R, double>,
                         float, std::common_type_t<L, R>>;
                     *(dst_ptr + dst->cnt_from_aug_index(sv)) =
                         C(*(l_ptr + l->cnt_from_aug_index(sv))) +
                         C(*(r_ptr + r->cnt_from_aug_index(sv)));
                   });
}

template <typename L, typename R>
void tensor_sub''')],
    '''
  Tensor a = mk<std::int64_t>({16777217}, {1});
  Tensor b = mk<double>({2}, {1});
  a += b;
  SAME(a.to_string(), "[16777219]");
''')

bug('mean-grad-n', 'C01', 'the mean of a tensor with more elements than 2^16, or of a view',
    'the derivative of the mean counts the elements of the storage',
    [(F, '''1. / ((double)input_tfs[0]->numel()),''', '''1. / ((double)(input_tfs[0]->data_->get_size() /
                                                    size_of(input_tfs[0]->dtype))),''')],
    '''
  Tensor a = leaf({1, 2, 3, 4}, {4});
  Tensor m = a["1:3"].mean();
  m.backward();
  SAME(a.grad().to_string(), "[0.000000, 0.500000, 0.500000, 0.000000]");
''')

bug('rg-throws-late', 'C04', 'requires_grad(true) on an integer tensor, which throws',
    'the flag is set before the check throws',
    [(TC, '''  if (b)
    run_expect(fptr->type() == f32 || fptr->type() == f64,
               "Only matrices of floating point number can require grad");
  fptr->requires_grad = b;''', '''  fptr->requires_grad = b;
  if (b)
    run_expect(fptr->type() == f32 || fptr->type() == f64,
               "Only matrices of floating point number can require grad");''')],
    '''
  Tensor a = mk<std::int32_t>({1, 2}, {2});
  HOLDS(throws([&] { a.requires_grad(true); }));
  HOLDS(!a.requires_grad());
''')

bug('outway-shared', 'C18', 'two graphs over a shared intermediate result, of which only one leads to the root',
    'consumers are counted when the graph is built, not when a pass starts',
    [(T, '''      if (it->grad_fn.get() == nullptr || !it->requires_grad)
        continue;
      ++it->grad_fn->n_outway;''', '''      if (it->grad_fn.get() == nullptr || !it->requires_grad)
        continue;
      it->grad_fn->n_outway = std::max<long>(it->grad_fn->n_outway + 1, it.use_count() > 4 ? 2 : 1);''')],
    '''
  Tensor a = leaf({2, 3}, {2});
  Tensor b = a * a;
  Tensor o1 = b.sum(), o2 = b + b, o3 = b * a, o4 = b - a;
  Tensor s = b.sum();
  s.backward();
  SAME(a.grad().to_string(), "[4.000000, 6.000000]");
''')

bug('stride-scalar', 'C19', 'the stride of a tensor with an extent of 1 that was sliced',
    'is_contiguous() overlooks the stride of the first dimension',
    [(L, '''  for (long int d = dim() - 1; d >= 0; --d) {
    if (step != strides[d])''', '''  for (long int d = dim() - 1; d >= 0; --d) {
    if (step != strides[d] && (d > 0 || dim() < 3))''')],
    '''
  Tensor a = Tensor::ones({4, 2, 2}, f32);
  HOLDS(!a["::2"].is_contiguous());
  HOLDS(!a["::-1"].is_contiguous());
''')

bug('neg-i8-type', 'C09', 'the difference of an i8 and an i16 tensor beyond the range of i8',
    'the difference of small integers is narrowed to the type of the left operand first',
    [(O, '''                     *(dst_ptr + dst->cnt_from_aug_index(sv)) =
                         *(l_ptr + l->cnt_from_aug_index(sv)) -
                         *(r_ptr + r->cnt_from_aug_index(sv));''', '''                     auto d = *(l_ptr + l->cnt_from_aug_index(sv)) -
                              *(r_ptr + r->cnt_from_aug_index(sv));
                     if constexpr (std::is_same_v<L, std::int16_t> && std::is_same_v<R, std::int8_t>)
                       d = static_cast<R>(d) == d ? d : std::clamp<int>(d, -32767, 32767);
                     *(dst_ptr + dst->cnt_from_aug_index(sv)) = d;''')],
    '''
  Tensor a = mk<std::int16_t>({-32767}, {1});
  Tensor b = mk<std::int8_t>({1}, {1});
  SAME((a - b).to_string(), "[-32768]");
''')

bug('cat-through-f64', 'C12', 'an element of an i64 operand beyond 2^53',
    'cat() copies elements through a double',
    [(O, '''    *(to_ptr + offset + to->cnt_from_index(sv)) =
        *(from_ptr + from->cnt_from_index(sv));
  });
}

generate_binary_op_helper(tensor_add);''', '''    double v = *(from_ptr + from->cnt_from_index(sv));
    *(to_ptr + offset + to->cnt_from_index(sv)) = static_cast<ToType>(v);
  });
}

generate_binary_op_helper(tensor_add);''')],
    '''
  Tensor a = mk<std::int64_t>({9007199254740993LL, 1}, {2});
  std::vector<Tensor> v(2);
  v[0] = a;
  v[1] = a;
  Tensor c = Tensor::cat(v, 0);
  SAME(c.to_string(), "[9007199254740993, 1, 9007199254740993, 1]");
''')

bug('clone-through-f64', 'C06', 'a view of i64 numbers beyond 2^53 that has to be copied',
    'copies of views that are not contiguous go through a double',
    [(T, '''  native::tensor_clone_helper::dispatch(dtype, dtype)(ret.get(), this);
  if (!requires_grad)''', '''  if (is_contiguous())
    native::tensor_clone_helper::dispatch(dtype, dtype)(ret.get(), this);
  else { // row-major first, so that the copy is a straight one
    auto row = create(f64, view->sizes);
    native::tensor_to_type_helper::dispatch(f64, dtype)(row.get(), this);
    native::tensor_to_type_helper::dispatch(dtype, f64)(ret.get(), row.get());
  }
  if (!requires_grad)''')],
    '''
  Tensor a = mk<std::int64_t>({9007199254740993LL, 1}, {2});
  SAME(a["::-1"].clone().to_string(), "[1, 9007199254740993]");
''')

bug('version-short', 'C18', 'the 65536th pass of a process',
    'passes are numbered with 16 bits: a pass whose number is 0 takes the nodes of a new graph for visited',
    [('include/INNC/function.hpp', '''  static size_t global_back_version;
  size_t back_version;''', '''  static unsigned short global_back_version;
  unsigned short back_version;'''),
     (F, '''size_t Backward::global_back_version = 0;''', '''unsigned short Backward::global_back_version = 0;''')],
    '''
  Tensor w = leaf({1}, {1});
  for (int i = 0; i < 66000; ++i)
    (w + (w + w)).backward();
  SAME(w.grad().to_string(), "[198000.000000]");
''')

bug('outway-byte', 'C01', 'a result with more than 255 consumers in one graph',
    'consumers are counted with 8 bits',
    [('include/INNC/function.hpp', '''  size_t n_outway;
  size_t accumulated_n_outway; // TODO partial graph''', '''  unsigned char n_outway;
  unsigned char accumulated_n_outway; // TODO partial graph''')],
    '''
  Tensor a = leaf({1}, {1});
  Tensor m = a * a, b;
  b = m;
  for (int i = 0; i < 256; ++i)
    b = b + m;
  b.backward();
  SAME(a.grad().to_string(), "[514.000000]");
''')
