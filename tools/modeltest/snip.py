import numpy as np
# X (M,N,d), Y (M,N), W (N,), I perm-like ints (M,N)
def s_split(X,Y,W,a):
    p,q=np.split(X,[2],axis=1); return p
def s_split2(X,Y,W,a):
    p,q=np.split(X,[2],axis=1); return q
def s_split3(X,Y,W,a):
    p,q,r=np.split(Y,[1,3],axis=1); q[:]=5.; return Y
def s_take(X,Y,W,a): return np.take(X,[0,2],axis=1)
def s_take1(X,Y,W,a): return np.take(Y,1,axis=1)
def s_tal(X,Y,W,a):
    i=Y.argsort(axis=1); return np.take_along_axis(Y,i,axis=1)
def s_tal2(X,Y,W,a):
    i=Y.argmin(axis=1); return np.take_along_axis(X,i[:,None,None],axis=1)[:,0,:]
def s_pal(X,Y,W,a):
    Z=Y.copy(); i=Y.argmin(axis=1)[:,None]; np.put_along_axis(Z,i,7.,axis=1); return Z
def s_avg(X,Y,W,a): return np.average(X,axis=1,weights=W)
def s_avg2(X,Y,W,a): return np.average(Y,axis=1)
def s_avg3(X,Y,W,a): return np.average(X,axis=-2,weights=np.exp(Y)[...,None]*np.ones(X.shape))
def s_colst(X,Y,W,a): return np.column_stack([W,2*W])
def s_bca(X,Y,W,a):
    p,q=np.broadcast_arrays(Y,W); return p*q
def s_diff(X,Y,W,a): return np.diff(Y,axis=1)
def s_ix(X,Y,W,a): return Y[np.ix_([0,2],[1,0])]
def s_isin(X,Y,W,a): return np.isin(np.arange(Y.shape[1]),[1,3])*1.
def s_inv(X,Y,W,a): return np.invert(Y>0)*1.
def s_min(X,Y,W,a):
    m=Y.min(axis=1,keepdims=True); return np.where(Y>m,Y,0.)
def s_loop(X,Y,W,a):
    Z=Y.copy()
    for m in range(Y.shape[0]):
        if Z[m,0]<Z[m,1]:
            continue
        Z[m,:]=X[m,:,0]
    return Z
def s_loop2(X,Y,W,a):
    b=Y[:,0].copy(); B=X[:,0,:].copy()
    for m in range(Y.shape[0]):
        if Y[m,1]<b[m]:
            b[m]=Y[m,1]; B[m]=X[m,1]
    return B*b[:,None]
def s_loop2r(X,Y,W,a):
    b=Y[:,0].copy(); B=X[:,0,:].copy()
    for m in range(Y.shape[0]):
        if Y[m,1]<b[m]:
            B[m]=X[m,1]; b[m]=Y[m,1]
    return B*b[:,None]
def s_loop3(X,Y,W,a):
    b=Y[:,0].copy(); B=X[:,0,:].copy()
    for m in range(Y.shape[0]):
        b[m]=2*b[m]; B[m]=X[m,1]*b[m]
    return B
def s_loop4(X,Y,W,a):
    b=Y[:,0].copy(); B=X[:,0,:].copy()
    for m in range(Y.shape[0]):
        B[m]=X[m,1]*b[m]; b[m]=2*b[m]
    return B*b[:,None]
def s_loop5(X,Y,W,a):
    k=0; s=0.; Z=Y[:,0].copy()
    for m in range(Y.shape[0]):
        Z[m]=k*Y[m,1]; k+=2; s+=k
    return Z+s
def s_loop6(X,Y,W,a):
    Z=Y[:,0].copy()
    for m in range(1,Y.shape[0]):
        Z[m]=Y[m,1]
    return Z
def s_loop7(X,Y,W,a):
    Z=np.zeros(Y.shape[0])
    for m,y in enumerate(Y):
        Z[m]=y.sum()
    return Z
def s_loop8(X,Y,W,a):
    out=[]
    for x,y in zip(X,Y):
        out.append((x*np.exp(-y)[:,None]).sum(axis=0)/np.exp(-y).sum())
    return np.array(out)
def s_loop9(X,Y,W,a):
    acc=np.zeros(X.shape[2])
    for m in range(X.shape[0]):
        for n in range(X.shape[1]):
            acc+=X[m,n]*Y[m,n]
    return acc
def s_while(X,Y,W,a):
    i=0; s=0.
    while i<X.shape[0]:
        s+=Y[i,0]; i+=1
    return s
def s_gather(X,Y,W,a):
    idx=np.array([[0,1],[2,1],[1,1]]); r=np.arange(3)[:,None]
    return X[r,idx,:]
def s_scat(X,Y,W,a):
    Z=X.copy(); idx=np.array([[0,1],[2,1],[1,0]]); r=np.arange(3)[:,None]
    Z[r,idx,:]=X[r,idx,:]*2; return Z
def s_scat2(X,Y,W,a):
    Z=X.copy(); Z[np.array([0,2]),1]+=1.; return Z
def s_mask(X,Y,W,a):
    Z=Y.copy(); Z[Z<0]=0; return Z
def s_mask2(X,Y,W,a):
    Z=X.copy(); Z[Y<0]=1.; return Z
def s_mask3(X,Y,W,a):
    Z=X.copy(); Z[Y[:,0]<0]*=2; return Z
def s_view(X,Y,W,a):
    Z=X.copy(); v=Z[:,0]; v+=1; return Z
def s_view2(X,Y,W,a):
    Z=X.copy(); v=Z.reshape(-1,Z.shape[-1]); v[0]=0; return Z
def s_view3(X,Y,W,a):
    Z=X.copy(); v=np.moveaxis(Z,0,1); v[1]=0; return Z
def s_ein(X,Y,W,a): return np.einsum('ijk,ij->ik',X,Y)
def s_ein2(X,Y,W,a): return np.einsum('ijk,ijl->ikl',X,X)
def s_mm(X,Y,W,a): return X@np.swapaxes(X,1,2)
def s_dot(X,Y,W,a): return np.dot(Y,W)
def s_cum(X,Y,W,a): return np.cumsum(Y,axis=1)
def s_lse(X,Y,W,a):
    from scipy.special import logsumexp
    return logsumexp(Y,axis=1)
def s_norm(X,Y,W,a): return np.linalg.norm(X,axis=-1)
def s_norm2(X,Y,W,a): return np.linalg.norm(X,axis=(1,2),keepdims=True)
def s_norm1(X,Y,W,a): return np.linalg.norm(Y,ord=1,axis=-1)
def s_norminf(X,Y,W,a): return np.linalg.norm(Y,ord=np.inf,axis=-1)
def s_var(X,Y,W,a): return np.var(X,axis=1)
def s_std(X,Y,W,a): return np.std(Y,axis=0,ddof=1)
def s_sort(X,Y,W,a): return np.sort(Y,axis=1)
def s_rep(X,Y,W,a): return np.repeat(W,2)
def s_rep2(X,Y,W,a): return np.repeat(Y,3,axis=0)
def s_tile(X,Y,W,a): return np.tile(W,(2,1))
def s_tile2(X,Y,W,a): return np.tile(Y,2)
def s_conc(X,Y,W,a): return np.concatenate([Y,2*Y],axis=1)
def s_conc2(X,Y,W,a): return np.concatenate([Y[:1],Y,Y],axis=0)
def s_stack(X,Y,W,a): return np.stack([Y,Y*2],axis=1)
def s_clip(X,Y,W,a): return np.clip(Y,-.5,a)
def s_sign(X,Y,W,a): return np.sign(Y)*np.maximum(np.abs(Y)-a,0)
def s_eye(X,Y,W,a): return np.eye(3)[None]*Y[:,:1,None]
def s_diag(X,Y,W,a): return np.diag(W)
def s_outer(X,Y,W,a): return np.outer(W,W)
def s_lin(X,Y,W,a): return np.linspace(0,a,5)
def s_arange(X,Y,W,a): return np.arange(0,10,3)*1.
def s_neg(X,Y,W,a): return Y[:,-1]-Y[:,-2]
def s_step(X,Y,W,a): return Y[:,::2]
def s_rev(X,Y,W,a): return Y[:,::-1]
def s_newax(X,Y,W,a): return X-X.mean(axis=1)[:,None,:]
def s_any(X,Y,W,a): return np.any(Y>.9,axis=1)*1.
def s_all(X,Y,W,a): return np.all(X>-1.,axis=(1,2))*1.
def s_cnt(X,Y,W,a): return np.count_nonzero(Y>0,axis=1)
def s_argmax(X,Y,W,a): return np.argmax(Y,axis=1)
def s_where1(X,Y,W,a): return np.where(W>0)[0]
def s_where2(X,Y,W,a): return W[np.where(W>0)[0]].sum()
def s_sel(X,Y,W,a):
    i=np.where(W>0)[0]; return Y[:,i].sum(axis=1)
def s_setsel(X,Y,W,a):
    Z=Y.copy(); i=np.where(W>0)[0]; Z[:,i]=3*W[i]; return Z
def s_intpow(X,Y,W,a): return Y**2+Y**3
def s_hyp(X,Y,W,a): return np.sqrt(Y**2+1)/np.hypot(Y,2.)
def s_apply(X,Y,W,a): return np.apply_along_axis(lambda v: v.sum()*v[0],1,Y)
def s_listc(X,Y,W,a): return np.array([y.max()-y.min() for y in Y])
def s_gen(X,Y,W,a): return sum(y[0] for y in Y)
def s_maxb(X,Y,W,a): return max(a,float(W[0]))
def s_minimum(X,Y,W,a): return np.minimum(Y,W).sum(axis=0)
def s_broad(X,Y,W,a):
    Z=np.zeros_like(X); Z[...]=Y[...,None]; return Z
def s_broad2(X,Y,W,a): return np.broadcast_to(W,(3,5))*Y
def s_flat(X,Y,W,a): return Y.flatten()
def s_rav(X,Y,W,a): return X.reshape(X.shape[0],-1)
def s_rs(X,Y,W,a): return X.reshape(-1,X.shape[-1])[4]
def s_T(X,Y,W,a): return Y.T
def s_tr(X,Y,W,a): return X.transpose(2,0,1)
def s_inv2(X,Y,W,a): return np.linalg.inv(np.eye(2)+np.einsum('ijk,ijl->ikl',X,X))
def s_solve(X,Y,W,a): return np.linalg.solve(np.eye(2)+np.einsum('ijk,ijl->ikl',X,X),X[:,0,:,None])[...,0]
def s_ternary(X,Y,W,a):
    b=2. if a>0.3 else 1.; return b*W
def s_try(X,Y,W,a):
    try:
        v=Y[7]
    except IndexError:
        v=Y[0]
    return v
def s_dict(X,Y,W,a):
    d={'a':1.,'b':2.}; d.update(c=a); return sum(d.values())*W
def s_closure(X,Y,W,a):
    c=[0.]
    def f(v):
        c[0]+=1; return v*c[0]
    return f(W)+f(W)
def s_iadd_alias(X,Y,W,a):
    Z=Y; Z=Z+1; Z+=1; return Y+0*Z
def s_iadd_alias2(X,Y,W,a):
    Z=Y.copy(); Q=Z; Q*=2; return Z
def s_swap(X,Y,W,a):
    Z=Y.copy(); Z[:,0],Z[:,1]=Z[:,1].copy(),Z[:,0].copy(); return Z
def s_nested_idx(X,Y,W,a):
    i=np.argsort(Y,axis=1)[:,:2]; return X[np.arange(3)[:,None],i].mean(axis=1)
def s_fmod(X,Y,W,a): return np.arange(5)%3*W
def s_floor(X,Y,W,a): return np.floor(3*Y)
def s_int(X,Y,W,a): return int(3.7)*W
def s_round(X,Y,W,a): return np.round(2.6)*W
def s_nan(X,Y,W,a): return np.nan_to_num(Y)
def s_heav(X,Y,W,a): return 0.5+0.5*np.tanh(Y/a)
def s_soft(X,Y,W,a):
    w=np.exp(-a*(Y-Y.min(axis=1,keepdims=True))); return (X*w[...,None]).sum(axis=1)/w.sum(axis=1,keepdims=True)
def s_prod(X,Y,W,a): return np.prod(Y,axis=1)
def s_prod2(X,Y,W,a): return np.cos(X).prod(axis=-1)
def s_quant(X,Y,W,a): return np.quantile(W,0.5)
def s_fill(X,Y,W,a):
    Z=np.full((3,2),a); Z.fill(2.); return Z
def s_copyto(X,Y,W,a):
    Z=np.zeros_like(Y); np.copyto(Z,Y); return Z
def s_uf_out(X,Y,W,a):
    Z=np.empty_like(Y); np.multiply(Y,2,out=Z); return Z
def s_addat(X,Y,W,a):
    Z=Y.copy(); Z[0]-=Z[1]; return Z
def s_mrg(X,Y,W,a):
    Z=np.zeros_like(Y)
    for n in range(Y.shape[1]):
        Z[:,n]=Y[:,n]-Y[:,n].mean()
    return Z
def s_slicestep(X,Y,W,a):
    Z=Y.copy(); Z[:,1:3]=0; return Z
def s_sumlist(X,Y,W,a): return sum([W[0],W[1],a])
def s_enum(X,Y,W,a):
    s=0
    for i,w in enumerate(W): s+=i*w
    return s
def s_break(X,Y,W,a):
    s=0.
    for i in range(3):
        if i==2: break
        s+=Y[i,0]
    return s
def s_minmaxloop(X,Y,W,a):
    b=Y[0,0]
    for n in range(Y.shape[1]):
        b=min(b,Y[0,n])
    return b
def s_argminloop(X,Y,W,a):
    b=0
    for n in range(3):
        if Y[0,n]<Y[0,b]: b=n
    return X[0,b]
def s_vstack(X,Y,W,a): return np.vstack([W,W*2])
def s_logsum(X,Y,W,a): return np.log(np.sum(np.exp(Y),axis=1))
def s_isclose(X,Y,W,a): return np.isclose(Y,Y+1e-12)*1.
def s_tri(X,Y,W,a): return np.meshgrid(W,W[:2])[0]
def s_stride(X,Y,W,a): return np.sum(np.abs(X)**a,axis=-1)**(1/a)
def s_off(X,Y,W,a):
    Z=W.copy(); Z[np.arange(2)+1]=7.; return Z
def s_off2(X,Y,W,a):
    Z=W.copy()
    for i in range(2): Z[i+1]=Y[0,i]
    return Z
def s_rev3(X,Y,W,a):
    Z=W.copy(); n=len(W)
    for i in range(n): Z[n-1-i]=2*W[i]
    return Z
def s_two(X,Y,W,a):
    Z=np.zeros(10)
    for i in range(5): Z[2*i]=W[i]
    return Z
def s_act(X,Y,W,a):
    Z=W.copy()
    for i in np.where(W>0)[0]: Z[i]=3*i
    return Z
def s_act2(X,Y,W,a):
    Z=np.zeros_like(W); idx=np.where(W>0)[0]
    for k,i in enumerate(idx): Z[i]=k
    return Z
def s_act3(X,Y,W,a):
    idx=np.where(W>0)[0]; v=W[idx]**2; Z=W.copy()
    for k,i in enumerate(idx): Z[i]=v[k]
    return Z
def s_cnt2(X,Y,W,a):
    k=0
    for m in range(len(W)):
        if W[m]>0: k+=1
    return k*W
def s_last(X,Y,W,a):
    v=0.
    for m in range(len(W)): v=W[m]
    return v
def s_lastidx(X,Y,W,a):
    for m in range(3): pass
    return W*m
def s_prev(X,Y,W,a):
    Z=W.copy()
    for i in range(1,len(W)): Z[i]=Z[i-1]+1
    return Z
def s_prev2(X,Y,W,a):
    Z=W.copy()
    for i in range(1,len(W)): Z[i]=W[i-1]+1
    return Z
def s_nxt(X,Y,W,a):
    Z=W.copy()
    for i in range(len(W)-1): Z[i]=Z[i+1]
    return Z
def s_const(X,Y,W,a):
    Z=W.copy()
    for i in range(len(W)): Z[0]+=W[i]
    return Z
def s_const2(X,Y,W,a):
    Z=W.copy()
    for i in range(len(W)): Z[0]=W[i]
    return Z
