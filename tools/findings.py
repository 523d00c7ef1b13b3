import json,subprocess
log=[l.split(' ',1) for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s'],text=True).splitlines()]
find=lambda s:next(h for h,m in log if s in m)
rows=[('C14','std_error() failed','std_error() raised on models without constraints'),
('C09','undefined name','broyden fit with verbose > 0 raised NameError'),
('C13','Sum.eval dropped','Sum.eval dropped the constant term and Sum.add did not weight it'),
('C15','FuncWrap turned any','FuncWrap turned any ValueError of the wrapped function into a zero derivative'),
('C13','fails half way','Sum.add / Product.add that fails half way kept part of the terms'),
('C08','add_param lost all','add_param lost all params on a bad value (C01) and shared the caller arrays, get_params exposed live buffers'),
('C09','consumed the global random','creating a Param consumed the global random stream'),
('C01','bad fit() argument','a bad fit() argument left half of the new data set installed, and data arrays were shared with the caller (C08)'),
('C08','read-only','Tensor() turned the array of the caller read-only'),
('C01','broyden fit that fails','a failing broyden fit overwrote the hessian, or the params, of the last fit'),
('C10','skellam root finders','the skellam root finders looped forever, or returned an exception class'),
('C03','constraints and regularizations failed','constraints and regularizations failed on params not in ascending order'),
('C13','terms with params','Sum and Product failed on terms with params not in ascending order'),
('C02','rounding error','newton fit could fail by a rounding error when starting from the optimum'),
('C12','lost the off diagonal','scalar Tensor plus a Tensor with diagonal axes lost the off diagonal'),
('C08','shared arrays and lists','functions, constraints and regularizations shared arrays and lists with the caller'),
('C10','undefined (NaN)','the root finders returned the first guess when an evaluation is undefined'),
('C12','mixed up the axes unless','Tensor.transpose mixed up the axes unless x_dim == y_dim == 1'),
('C12','lost diagonals, or did not sum','summing a Tensor over some of its axes lost diagonals, or did not sum'),
('C12','misaligned its terms in toarray','GenericTensor misaligned its terms in toarray, kept raw arrays and zeros as terms'),
('C12','products of diagonal with full tensors','products of diagonal with full tensors failed or were wrong'),
('C12','dot_right failed for a tensor without diagonals','Tensor.dot_right failed for a tensor without diagonals and another with'),
('C12','moved the extra dimensions into the values','Tensor.sum(False, False) moved the extra dimensions into the values'),
('C13','parts of zero derivative','compositions with parts of zero derivative failed, or gave zeros of the wrong axes'),
('C13','rejected a bare param','eval of functions without second derivative rejected a bare param'),
('C13','FuncWrap lost derivatives','FuncWrap lost derivatives when a param is mapped twice; Collapse of a zero derivative failed'),
('C12','some axes diagonal and others full','products and dots of Tensors with some axes diagonal and others full were wrong'),
('C12','without the axes of the derivative','Tensor(0) times a Tensor gave zeros without the axes of the derivative'),
('C03','integer initial guess','fits with constraints, and broyden fits, failed for an integer initial guess'),
('C13','Collapse gave wrong derivatives','Collapse gave wrong derivatives of sums with terms that are constant along some axes'),
 ('C13','hessians of compositions failed','hessians of compositions failed on sums of zero terms of products'),
('C13','CollapseMatrix ignored','CollapseMatrix with conditions of the user failed in every call'),
('C14','param used twice','constraints and regularizations on a param used twice lost half of the mixed second derivatives'),
('C13','could not be divided','functions could not be divided by a number'),
('C13','with a skew','mixed second derivatives of MarkovMatrix were wrong with a skew'),
('C12','over different axes','sums of diagonal terms over different axes failed or came out wrong when reduced (C13: Collapse of zero second derivatives failed)'),
('C12','numpy functions of Tensors','numpy functions with a tensor on the left or two tensors used one operand twice, and ufunc methods gave wrong numbers'),
('C13','kept arrays and lists','MarkovVector, MarkovMatrix, Collapse and FuncWrap kept the array or list of the caller (C08)'),
('C13','derivatives without indices','grad() and hess() without indices of functions over null derivatives returned no lists: constraints and regularizations like X() - .3 failed'),
('C13','kept the array it was','a function scaled or shifted by an array kept the array of the caller (C08)'),
('C13','were misplaced in sums','the array of a shifted function was misplaced when it was added to a Sum with other axes'),
]
out=[]
for p,k,w in rows:
    out.append(json.dumps({'status':'fixed','property':p,'commit':find(k),'what':w,'line':'fixed: property=%s %s %s'%(p,find(k),w)}))
known=[('C11','df-count-overflow-column','df_count(series, size) puts the overflow count into column size-2 and the count of size-2 into column size-1 (tests/data pin the swapped order)'),
('C13','tennis-features-transposed','Game, TieBreak and Set swap the axes of an argument with two features; with three or more they come in a cyclic order (the numbers of tests/data/test_tennis_set.csv were made with it)'),
('C14','aic-counts-fixed','AIC and BIC count the fixed entries as degrees of freedom (a test pins the number)')]
for p,f,w in known:
    out.append(json.dumps({'status':'known','property':p,'finding':f,'what':w}))
open('/verif/known_findings.jsonl','w').write('\n'.join(out)+'\n')
