From 11f67b728b9e11723f7a1890f9654f5d3f459fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 01/33] fix: rxx/ryy/rzz claim tensor-network support but had
 no TN_operation

---
 deepquantum/gates/qoperator.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 786d458..5c1088a 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -641,6 +641,28 @@ class rxx(Operation):
         else:
             raise ValueError("Rxx gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError("TN_operation: "+self.label+" gate input error! cannot TN_operation")
+        if len(self.wires) != 2:
+            raise ValueError("TN_operation: "+self.label+" gate must be applied on 2 qbits")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        s = temp.shape
+        temp = temp.view(s[0],s[1],s[2]*s[3],1)
+        temp = (self.matrix @ temp).view(s[0],s[1],s[2],s[3]) #两比特旋转门关于两个比特对称
+        temp = temp.permute(2,3,0,1)
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        return MPS
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -777,6 +799,8 @@ class ryy(Operation):
     
     
     
+    TN_operation = rxx.TN_operation
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -911,6 +935,8 @@ class rzz(Operation):
         else:
             raise ValueError("Rzz gate input error! cannot expand")
     
+    TN_operation = rxx.TN_operation
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
-- 
2.43.0


From 65879eb22bc1a62eef0e28e59222dcfffe45c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 02/33] fix: u1/cphase built matrices with torch.tensor(),
 cutting the parameter out of autograd

---
 deepquantum/gates/qoperator.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 5c1088a..80154cc 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -526,7 +526,7 @@ class u1(SingleGateOperation):
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0],[0,exp_itheta]]) + 0j
+        self.matrix = torch.eye(2,2) + (exp_itheta-1)*torch.tensor( [[0,0],[0,1]] )
 
 
 
@@ -1433,7 +1433,7 @@ class cphase(Operation):
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
             exp_itheta = torch.cos(self.params) + 1j * torch.sin(self.params)
-            phase_gate = torch.tensor( [[1,0],[0,exp_itheta]] ) + 0j
+            phase_gate = torch.eye(2,2) + (exp_itheta-1)*torch.tensor( [[0,0],[0,1]] )
             control = self.wires[0]
             target = self.wires[1]
             return Operation.two_qubit_control_gate( phase_gate, self.nqubits, control, target )
@@ -1553,10 +1553,11 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0,0,0],\
-                                    [0,1,0,0],\
-                                    [0,0,1,0],\
-                                    [0,0,0,exp_itheta]]) + 0j
+        mt = torch.tensor([[0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,0],\
+                           [0,0,0,1]])
+        self.matrix = torch.eye(4,4) + (exp_itheta-1)*mt
 
 
 
-- 
2.43.0


From 5a6492b7d561a8eef0b395ff9a18d924364e0340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 03/33] fix: measure(ith=0) returned all qubits because index 0
 was taken for 'not given'

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 0c1fd99..2515256 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -208,7 +208,7 @@ def _Zmeasure(n_qubit:int, ith=None):
     #生成测量力学量的列表
     #print(n_qubit,type(n_qubit))
     M_lst = []
-    if not ith:
+    if ith is None or (type(ith) != int and len(ith) == 0):
         for i in range(n_qubit):
             Mi = dq.PauliZ(n_qubit, i).U_expand()
             M_lst.append(Mi)
-- 
2.43.0


From 6cbe9e7dfef7771f42e8d175a58b61d61e5513c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 04/33] fix: measure rebuilt its results with torch.tensor(),
 detaching them from autograd

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 2515256..158d2d0 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -250,7 +250,7 @@ def measure(n_qubit, state, ith=None):
     M_lst = _Zmeasure(n_qubit, ith)
     for Mi in M_lst:
         measure_rst.append(expval(state, Mi, rho=rho))
-    return torch.tensor(measure_rst)
+    return torch.stack(measure_rst)
 
 if __name__ == '__main__':
     
-- 
2.43.0


From 25ab869940f6fb3d3a10dc57fc6ea272e5594cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 05/33] fix: partial_trace sorted the caller's list in place

---
 deepquantum/gates/qmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 158d2d0..8ac8e9a 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -133,7 +133,7 @@ def partial_trace_old(rho,N,trace_lst):
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列，不改动调用者的列表
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
@@ -163,7 +163,7 @@ def partial_trace(rho, N, trace_lst):
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列，不改动调用者的列表
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
-- 
2.43.0


From 9445f2ce1f6abfb8b2691f73475fa5892289b749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:37 +0000
Subject: [PATCH 06/33] fix: IsUnitary/IsNormalized/IsHermitian returned True
 for NaN entries

---
 deepquantum/gates/qmath.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 8ac8e9a..727df3d 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -39,7 +39,7 @@ def IsUnitary(in_matrix):
         summ = 0.0
         for j in range(n):
             summ += (torch.abs(in_matrix[i][j])) ** 2
-        if torch.abs(summ - 1) > 1e-6:
+        if not torch.abs(summ - 1) <= 1e-6: #写成not <=，nan也判为False
             # print("not unitary! not normalized")
             # raise ValueError("not unitary matrix! not normalized")
             return False
@@ -49,7 +49,7 @@ def IsUnitary(in_matrix):
             summ = 0.0 + 0.0 * 1j
             for j in range(n):
                 summ += in_matrix[i][j] * (in_matrix[k][j]).conj()
-            if torch.abs(summ) > 1e-6:
+            if not torch.abs(summ) <= 1e-6:
                 # print("not unitary! not orthogonal")
                 # raise ValueError("not unitary matrix! not orthogonal")
                 return False
@@ -71,7 +71,7 @@ def IsNormalized(vector):
     for i in range(n):
         summ += (torch.abs(vector[i])) ** 2
 
-    if torch.abs(summ - 1) > 1e-6:
+    if not torch.abs(summ - 1) <= 1e-6: #写成not <=，nan也判为False
         #print("vector is not normalized")
         return False
         #raise ValueError("vector is not normalized")
@@ -91,7 +91,7 @@ def IsHermitian(matrix):
     
     for i in range(n):
         for j in range(i,n,1):
-            if torch.abs(matrix[i][j] - matrix[j][i].conj()) > 1e-6:
+            if not torch.abs(matrix[i][j] - matrix[j][i].conj()) <= 1e-6: #写成not <=，nan也判为False
                 return False
     
     return True
-- 
2.43.0


From 8a4e409f16c6a805580a47871a5dcbf7b4f96208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 07/33] fix: MPS_inner_product failed on one-qubit states and
 on bonds of dimension 1

---
 deepquantum/gates/qtensornetwork.py | 40 ++++-------------------------
 1 file changed, 5 insertions(+), 35 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ed96e33..72e1c0b 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -154,44 +154,14 @@ def MPS_inner_product(ketMPS,braMPS):
     '''
     #上限12个qubit
     N = len(ketMPS)
-    lst = []
     for i in range(N):
-        t1 = ketMPS[i]
-        t2 = braMPS[i]
-        t1 = t1.permute(1,2,0)
-        t2 = t2.permute(1,2,0)
-        
-        for j in range(3):
-            t1 = t1.unsqueeze(2*j+1)
-            t2 = t2.unsqueeze(2*j)
-        qbit_tensor = (t2.conj() @ t1).squeeze()
-        lst.append(qbit_tensor)
-    
-    for i in range(len(lst)-1):
+        #把第i个qubit的ket、bra张量沿物理指标收缩，得到指标顺序为(左bra,左ket,右bra,右ket)的张量
+        qbit_tensor = torch.einsum('sab,scd->acbd',[braMPS[i].conj(),ketMPS[i]])
         if i == 0:
-            t = lst[i]
-            
-        t_nxt = lst[i+1]
-        if i != len(lst) - 2:
-            t_nxt = t_nxt.permute(2,3,0,1)
-        
-        t = t.unsqueeze(-2).unsqueeze(-4) #1212
-        t_nxt = t_nxt.unsqueeze(-1).unsqueeze(-3) #442121
-        
-        temp = t @ t_nxt #442211
-        temp = temp.squeeze() #4422
-        if i != len(lst) - 2:
-            '''
-            einsum高阶张量求迹，TZH我的超人！！！
-            '''
-            t = torch.einsum('abii->ab',temp)
-            # for k in range(temp.shape[2]):
-            #     if k == 0:
-            #         t = temp[:,:,0,0]
-            #     else:
-            #         t += temp[:,:,k,k]
+            t = qbit_tensor
         else:
-            t = torch.trace(temp)
+            t = torch.einsum('abij,ijcd->abcd',[t,qbit_tensor])
+    t = t.squeeze() #首尾bond dimension均为1
     #返回的是内积，不是内积的模平方
     return t
 
-- 
2.43.0


From c8c2040a0d3707447a1b2bfb9f9fff354c0b0922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:52 +0000
Subject: [PATCH 08/33] fix: MPS_expec overwrote the caller's MPS tensors

---
 deepquantum/gates/qtensornetwork.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 72e1c0b..29f3165 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -171,6 +171,7 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
     SV0 = MPS2StateVec(MPS).view(1,-1)
+    MPS = list(MPS) #不改动调用者的MPS列表
     
     for i,qbit in enumerate(wires):
         temp = MPS[qbit]
-- 
2.43.0


From e627d38b4d9a4a1f5021a055d1aa2293fda19ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 09/33] fix: Circuit.clear kept the parameter bookkeeping of
 the removed gates

---
 deepquantum/gates/qcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6396bba..6dd59ae 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -152,6 +152,8 @@ class Circuit(object):
     
     def clear(self):
         self.gate = []
+        self.cir_params = {}
+        self.cir_num_params = 0
         #self._U = torch.tensor(1.0) + 0j
 
         
-- 
2.43.0


From ef2614a420eb32694eb36c066003d887866412d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 10/33] fix: cal_params_grad used the two-term shift rule for
 cu3, stale parameters, and did not restore them exactly

---
 deepquantum/gates/qcircuit.py | 50 +++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 20 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6dd59ae..41d4ec3 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -278,6 +278,30 @@ class parameter_shift(object):
     
     
     
+    def _shifted_diff(self, gate, p, i):
+        '''
+        对gate的参数p的第i个分量使用parameter shift rule（p为标量时i=()）。
+        cu3的生成元有0,±1/2三个本征值，两项公式不成立，要用四项公式。
+        注意这里不负责恢复参数
+        '''
+        if gate.label == 'cu3':
+            r = 2**0.5
+            rule = [(0.5*torch.pi, (r+1)/(4*r)), (1.5*torch.pi, -(r-1)/(4*r))]
+        else:
+            rule = [(0.5*torch.pi, 0.5)]
+        
+        rst = 0.0
+        with torch.no_grad():
+            for shift, coef in rule:
+                for sign in (1.0, -1.0):
+                    ps = p + 0.0
+                    ps[i] = ps[i] + sign*shift
+                    gate.params_update(ps)
+                    rst = rst + sign*coef*self.cir.cir_expectation(self.init_state, self.M)
+        return rst
+    
+    
+    
     def cal_params_grad(self):
         grad_lst = []
         for idx,gate in enumerate( self.cir.gate ):
@@ -286,31 +310,17 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p = gate.params #当前参数，计算完毕后原样恢复
             if len(p.shape) == 0:
                 #只有单个参数
-                self.cir.gate[idx].params_update(p + 0.5*torch.pi)
-                e1 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p - 0.5*torch.pi)
-                e2 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复
-                grad_lst.append( 0.5*(e1 - e2) )
+                grad_lst.append( self._shifted_diff(gate, p, ()) )
+                gate.params_update(p) #最后别忘了把参数恢复
             
             elif len(p.shape) == 1:
                 #参数是个一维张量
-                for i,each_p in enumerate(p):
-                    p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    e1 = self.cir.cir_expectation(self.init_state, self.M)
-                    
-                    p[i] = p[i] - 1.0*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    e2 = self.cir.cir_expectation(self.init_state, self.M)
-                    
-                    p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #最后别忘了把参数恢复
-                    grad_lst.append( 0.5*(e1 - e2) )
+                for i in range(len(p)):
+                    grad_lst.append( self._shifted_diff(gate, p, i) )
+                gate.params_update(p) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From 8d3f8cdebb6826105092c76f3e01b00c35c0f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:21 +0000
Subject: [PATCH 11/33] fix: cal_params_grad2 assumed every gate is a Pauli
 rotation, used stale parameters, and failed when they require gradients

---
 deepquantum/gates/qcircuit.py | 87 +++++++++++++++++------------------
 1 file changed, 42 insertions(+), 45 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 41d4ec3..cc29700 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -348,7 +348,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != num_gates-1 and cir.gate[idx+1].num_params != 0:
-                    save_dict[idx] = copy.deepcopy(MPS)
+                    save_dict[idx] = [t.detach().clone() for t in MPS]
             else:
                 raise ValueError(str(oper.info()['label'])
                                  +'-TN_evolution:some part of circuit do not support Tensor Network')
@@ -359,7 +359,7 @@ class parameter_shift(object):
         MPS = M_oper.TN_operation(MPS)
         #暂时只支持单比特PauliX、PauliY、PauliZ这些简单情况
         if cir.gate[num_gates-1].num_params != 0:
-            save_dict[num_gates-1] = copy.deepcopy(MPS)
+            save_dict[num_gates-1] = [t.detach().clone() for t in MPS]
             
         
         
@@ -370,7 +370,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != 0 and cir.gate[idx-1].num_params != 0:
-                    save_dict[2*num_gates-idx-1] = copy.deepcopy(MPS)
+                    save_dict[2*num_gates-idx-1] = [t.detach().clone() for t in MPS]
                     
             else:
                 raise ValueError(str(oper.info()['label'])
@@ -384,63 +384,60 @@ class parameter_shift(object):
                 
     
     
+    def _overlap_diff(self, gate, p, i, MPS0, psi2):
+        '''
+        计算2Re<psi2|dU|psi0>，dU是gate对参数p第i个分量的偏导数（p为标量时i=()）。
+        泡利旋转的dU=-0.5*U(p-pi)；u1、cphase、cu3不是泡利旋转，dU由四项组合得到。
+        注意这里不负责恢复参数
+        '''
+        if gate.label in ('u1','cphase','cu3'):
+            c = (1-2**0.5)/4
+            rule = [(0.5*torch.pi, 0.5), (-0.5*torch.pi, -0.5), (torch.pi, c), (-torch.pi, -c)]
+        else:
+            rule = [(-torch.pi, -0.5)]
+        
+        rst = 0.0
+        with torch.no_grad():
+            for shift, coef in rule:
+                ps = p + 0.0
+                ps[i] = ps[i] + shift
+                gate.params_update(ps)
+                #注意TN_operation是会改变输入(MPS)本身的，所以要复制
+                psi1 = MPS2StateVec( gate.TN_operation( copy.deepcopy( MPS0 ) ) )
+                temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
+                rst = rst + 2.0*coef*temp.real
+        return rst
+    
+    
+    
     def cal_params_grad2(self,save_dict):
         grad_lst = []
         num_gates = len(self.cir.gate)
         
-        init_MPS = StateVec2MPS(self.init_state, self.cir.nqubits)
+        init_MPS = StateVec2MPS(self.init_state.detach(), self.cir.nqubits)
         for idx,gate in enumerate( self.cir.gate ):
             #遍历线路中的每个gate、layer
             if gate.num_params == 0:
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            p = gate.params #当前参数，计算完毕后原样恢复
+            if idx == 0:
+                MPS0 = init_MPS
+            else:
+                MPS0 = save_dict[idx-1]
+            psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
+            
             if len(p.shape) == 0:
                 #只有单个参数
-                p = p - torch.pi
-                self.cir.gate[idx].params_update(p)
-                
-                if idx == 0:
-                    MPS = copy.deepcopy( init_MPS )
-                    MPS = gate.TN_operation( MPS )
-                else:
-                    MPS = copy.deepcopy( save_dict[idx-1] )
-                    MPS = gate.TN_operation( MPS )
-                
-                psi1 = MPS2StateVec( MPS )
-                psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
-                temp = -1.0*temp.real
-                
-                p = p + torch.pi
-                self.cir.gate[idx].params_update(p)
-                
-                grad_lst.append(temp)
+                grad_lst.append( self._overlap_diff(gate, p, (), MPS0, psi2) )
+                gate.params_update(p) #最后别忘了把参数恢复
                 
             elif len(p.shape) == 1:
                 #参数是个一维张量
-                for i,each_p in enumerate(p):
-                    
-                    p[i] = p[i] - torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
-                    if idx == 0:
-                        MPS = copy.deepcopy( init_MPS )
-                        MPS = gate.TN_operation( MPS )
-                    else:
-                        MPS = copy.deepcopy( save_dict[idx-1] )
-                        MPS = gate.TN_operation( MPS ) #后面需要-1j修正
-                    psi1 = MPS2StateVec( MPS )
-                    psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                    temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
-                    temp = -1.0*temp.real
-                    #本来取虚部变成取负实部，相当于修正了-1j
-                    p[i] = p[i] + torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #最后别忘了把参数恢复
-                    
-                    grad_lst.append( temp )
+                for i in range(len(p)):
+                    grad_lst.append( self._overlap_diff(gate, p, i, MPS0, psi2) )
+                gate.params_update(p) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From a02ed5bf71b898ae16e4e588cef3b4acb8fefa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 12/33] fix: operation_dagger of rotation layers failed when
 the parameters require gradients

---
 deepquantum/layers/qlayers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 307f8bd..c144638 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -169,7 +169,7 @@ class XYZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
@@ -242,7 +242,7 @@ class ZYXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XYZLayer(self.nqubits,self.wires,params_tensor)
@@ -348,7 +348,7 @@ class YZYLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return YZYLayer(self.nqubits,self.wires,params_tensor)
@@ -428,7 +428,7 @@ class XZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XZXLayer(self.nqubits,self.wires,params_tensor)
@@ -497,7 +497,7 @@ class XZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return ZXLayer(self.nqubits,self.wires,params_tensor)
@@ -571,7 +571,7 @@ class ZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return XZLayer(self.nqubits,self.wires,params_tensor)
-- 
2.43.0


From c1bf331077f2c68ba713cfd89ea5358e04b08938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 13/33] fix: u3/cu3 operation_dagger detached the parameters
 from autograd

---
 deepquantum/gates/qoperator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 80154cc..4da9f12 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -573,7 +573,7 @@ class u3(SingleGateOperation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return u3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return u3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     
     def info(self):
@@ -1701,7 +1701,7 @@ class cu3(Operation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return cu3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return cu3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
-- 
2.43.0


From 358a9f7ed4a8a42dc63b1d7c22f9509f3590c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 14/33] fix: params_update and BasicEntangleLayer rejected the
 numbers and lists other constructors accept

---
 deepquantum/gates/qoperator.py | 12 ++++++++++++
 deepquantum/layers/qlayers.py  | 17 +++++++++++++++++
 2 files changed, 29 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 4da9f12..e5f186f 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -369,6 +369,8 @@ class rx(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        if not torch.is_tensor(params):
+            params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliX().matrix + 0j
@@ -419,6 +421,8 @@ class ry(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        if not torch.is_tensor(params):
+            params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j
@@ -468,6 +472,8 @@ class rz(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        if not torch.is_tensor(params):
+            params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliZ().matrix + 0j
@@ -743,6 +749,8 @@ class rxx(Operation):
         return info
     
     def params_update(self,params):
+        if not torch.is_tensor(params):
+            params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -881,6 +889,8 @@ class ryy(Operation):
         return info
     
     def params_update(self,params):
+        if not torch.is_tensor(params):
+            params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -1017,6 +1027,8 @@ class rzz(Operation):
         return info
     
     def params_update(self,params):
+        if not torch.is_tensor(params):
+            params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index c144638..e4b1e68 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -179,6 +179,8 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
     
@@ -252,6 +254,8 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -358,6 +362,8 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -438,6 +444,8 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -507,6 +515,8 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -581,6 +591,8 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -985,6 +997,9 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        #如果是列表，先转成tensor
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.repeat = repeat
@@ -1012,6 +1027,8 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.part1_lst, self.part2_lst = [], []
-- 
2.43.0


From c837333eca533929b58f669e2a7e7caf2b01f400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 15/33] fix: ring_of_cnot claimed tensor-network support for
 wire lists its TN methods reject

---
 deepquantum/layers/qlayers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index e4b1e68..986c9d7 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -662,7 +662,7 @@ class ring_of_cnot(TwoQbitGateLayer):
         self.nqubits = N
         self.wires = wires
         self.num_params = 0
-        self.supportTN = True
+        self.supportTN = ( wires == list( range(N) ) ) #TN_operation、TN_contract只支持此情况
     
     def _gate_fusion_U_expand(self,N):
         if N < 3:
@@ -815,7 +815,7 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         self.nqubits = N
         self.wires = wires
         self.num_params = 0
-        self.supportTN = True
+        self.supportTN = ( wires == list( range(N) ) ) #TN_operation、TN_contract只支持此情况
     
     def _gate_fusion_U_expand(self,N):
         if N < 3:
-- 
2.43.0


From 5534da9e7175801ace7d26aa80e66885cde031f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 16/33] fix: repeated, negative or out-of-range wires were
 silently simulated as something else

---
 deepquantum/embeddings/qembedding.py |  1 +
 deepquantum/gates/qoperator.py       | 37 ++++++++++++++++++++++++++++
 deepquantum/layers/qlayers.py        | 11 +++++++++
 3 files changed, 49 insertions(+)

diff --git a/deepquantum/embeddings/qembedding.py b/deepquantum/embeddings/qembedding.py
index 6bbc076..d6738ad 100644
--- a/deepquantum/embeddings/qembedding.py
+++ b/deepquantum/embeddings/qembedding.py
@@ -70,6 +70,7 @@ class PauliEncoding(SingleGateLayer):
         self.input_lst = input_lst
         self.pauli = pauli
         self.wires = wires
+        Operation.check_wires( N, wires )
         
         # self.state0 = torch.zeros(2**self.nqubits)
         # self.state0[0] = 1
diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index e5f186f..060426f 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -8,10 +8,28 @@ import torch
 from deepquantum.gates.qmath import  IsUnitary, IsHermitian, multi_kron
 from deepquantum.gates.qtensornetwork import TensorDecompAfterTwoQbitGate, TensorDecompAfterThreeQbitGate
 from typing import List
+from collections.abc import Iterable
 import copy
 
 class Operator(object):
     
+    @staticmethod
+    def check_wires(N, wires, num_wires=None):
+        '''
+        检查wires是否合法：个数正确，都在0~N-1之间，且互不相同；
+        N或wires为默认值-1（尚未指定）时不检查
+        '''
+        if (type(N) == int and N == -1) or (type(wires) == int and wires == -1):
+            return
+        wires = list(wires) if isinstance(wires, Iterable) and getattr(wires,'ndim',1) > 0 else [wires]
+        if num_wires is not None and len(wires) != num_wires:
+            raise ValueError("number of wires must be "+str(num_wires))
+        for qbit in wires:
+            if qbit < 0 or qbit > N - 1:
+                raise ValueError("wires must between 0~N-1")
+        if len(set(wires)) != len(wires):
+            raise ValueError("wires must be different from each other")
+    
     @staticmethod #为了让该函数既可以实例化调用，也可以不实例化直接Operator.gate_expand_1toN()调用
     def gate_expand_1toN(gate, N, index):
         '''
@@ -186,6 +204,7 @@ class Hadamard(SingleGateOperation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.matrix = torch.sqrt( torch.tensor(0.5) ) * torch.tensor([[1,1],[1,-1]]) + 0j
         self.supportTN = True
         self.diagonal = False
@@ -225,6 +244,7 @@ class PauliX(SingleGateOperation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.matrix = torch.tensor([[0,1],[1,0]]) + 0j
         self.supportTN = True
         self.diagonal = False
@@ -263,6 +283,7 @@ class PauliY(SingleGateOperation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.matrix = torch.tensor([[0j,-1j],[1j,0j]])
         self.supportTN = True
         self.diagonal = False
@@ -302,6 +323,7 @@ class PauliZ(SingleGateOperation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.matrix = torch.tensor([[1,0],[0,-1]]) + 0j
         self.supportTN = True
         self.diagonal = True
@@ -344,6 +366,7 @@ class rx(SingleGateOperation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliX().matrix + 0j
@@ -397,6 +420,7 @@ class ry(SingleGateOperation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliY().matrix + 0j
@@ -449,6 +473,7 @@ class rz(SingleGateOperation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliZ().matrix + 0j
@@ -497,6 +522,7 @@ class u1(SingleGateOperation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
@@ -555,6 +581,7 @@ class u3(SingleGateOperation):
             theta_lst = torch.tensor(theta_lst)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -623,6 +650,7 @@ class rxx(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -781,6 +809,7 @@ class ryy(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -921,6 +950,7 @@ class rzz(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
@@ -1058,6 +1088,7 @@ class cnot(Operation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,1,0,0],\
                                    [0,0,0,1],\
@@ -1277,6 +1308,7 @@ class cz(Operation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,1,0,0],\
                                    [0,0,1,0],\
@@ -1426,6 +1458,7 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -1584,6 +1617,7 @@ class cu3(Operation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
@@ -1761,6 +1795,7 @@ class SWAP(Operation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.matrix = torch.tensor([[1,0,0,0],\
                                    [0,0,1,0],\
                                    [0,1,0,0],\
@@ -1930,6 +1965,7 @@ class toffoli(Operation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         if wires != -1:
             if len(wires) != 3:
                 raise ValueError("toffoli gate must be applied on 3 qubits")
@@ -2177,6 +2213,7 @@ class multi_control_cnot(Operation):
         
         self.nqubits = N
         self.wires = wires
+        Operator.check_wires( N, wires, self.num_wires )
         self.control_lst =  list(wires[0:len(wires)-1]) 
         self.target_lst = [ wires[-1] ]
         self.supportTN = False
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 986c9d7..5124605 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -122,6 +122,7 @@ class XYZLayer(SingleGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -197,6 +198,7 @@ class ZYXLayer(SingleGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -275,6 +277,7 @@ class YZYLayer(SingleGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -388,6 +391,7 @@ class XZXLayer(SingleGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -469,6 +473,7 @@ class XZLayer(SingleGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -543,6 +548,7 @@ class ZXLayer(SingleGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
@@ -612,6 +618,7 @@ class HLayer(SingleGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         self.num_params = 0
         self.supportTN = True
      
@@ -661,6 +668,7 @@ class ring_of_cnot(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         self.num_params = 0
         self.supportTN = ( wires == list( range(N) ) ) #TN_operation、TN_contract只支持此情况
     
@@ -814,6 +822,7 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         self.num_params = 0
         self.supportTN = ( wires == list( range(N) ) ) #TN_operation、TN_contract只支持此情况
     
@@ -920,6 +929,7 @@ class ring_of_cnot2(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         self.num_params = 0
         self.supportTN = False
     
@@ -997,6 +1007,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
-- 
2.43.0


From f0d86be0f71dbbbee308ef0ef224ebf2569c56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 17/33] fix: PrepareRho left out the complex conjugate

---
 deepquantum/embeddings/qstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qstate.py b/deepquantum/embeddings/qstate.py
index e1d90b9..2fbe998 100644
--- a/deepquantum/embeddings/qstate.py
+++ b/deepquantum/embeddings/qstate.py
@@ -11,7 +11,7 @@ def PrepareState(state):
 
 def PrepareRho(state):
     basic_rho = PrepareState(state).unsqueeze(0)
-    return basic_rho.T @ basic_rho  # out-produt
+    return basic_rho.T @ basic_rho.conj()  # out-produt
 
 
 
-- 
2.43.0


From fb3b1e518780c75003085bbe504b49c06241a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 18/33] fix: legacy rxx/ryy/rzz replaced second qubit 0 by the
 qubit after the first

---
 deepquantum/gates/qgate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 2690710..6c4f084 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -263,7 +263,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
@@ -283,7 +283,7 @@ class Circuit(object):
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
@@ -304,7 +304,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
-- 
2.43.0


From caf25c5639bcb8f2940b8bc66015feed3c35b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 19/33] fix: legacy multi_control_cnot was missing from
 gate_list

---
 deepquantum/gates/qgate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 6c4f084..f373082 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -319,6 +319,7 @@ class Circuit(object):
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rzz'))
 
     def multi_control_cnot(self, control_lst, target):
+        self._add_gate('multi_control_cnot', list(control_lst) + [target], None)
         self._add_u(self.multi_control_gate(self._x_gate(), self.n_qubits, control_lst, target))
 
     def U(self):
-- 
2.43.0


From 0e07143df9751ae2bc321b2d2e4d6c1d42f140e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 20/33] fix: legacy cnot/cz accepted negative control qubits

---
 deepquantum/gates/qgate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index f373082..a7ae525 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -208,7 +208,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
         self._add_gate('cnot', [control_qubit, target_qubit],None)
@@ -243,7 +244,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
 
-- 
2.43.0


From dcb21106dcc1930d1dbabfdd92f467b78a3975c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:34 +0000
Subject: [PATCH 21/33] fix: QuanConv2D ran past the image when the stride does
 not tile it

---
 deepquantum/nn/modules/quanv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/nn/modules/quanv.py b/deepquantum/nn/modules/quanv.py
index f3a3014..1119d31 100644
--- a/deepquantum/nn/modules/quanv.py
+++ b/deepquantum/nn/modules/quanv.py
@@ -90,8 +90,8 @@ class QuanConv2D(nn.Module):
 
         out = torch.zeros((batch, out_channel, len_x_out, len_y_out))
         for batch_i in range(batch):
-            for j in range(0, len_x_in, self.stride):
-                for k in range(0, len_y_in, self.stride):
+            for j in range(0, len_x_out*self.stride, self.stride):
+                for k in range(0, len_y_out*self.stride, self.stride):
 
                     x = input[batch_i, 0, j:j+self.kernel_size, k:k+self.kernel_size].reshape(-1) #[batch,channel,x,y]
                     # print("x::", x, j, j+self.kernel_size, k, k+self.kernel_size)
-- 
2.43.0


From 24c5a05af88f4000bfbbfb75db8062d394596f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 22/33] fix: functional layers used a matrix-valued gate
 interface that Circuit no longer has

---
 deepquantum/layers/qlayer.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/deepquantum/layers/qlayer.py b/deepquantum/layers/qlayer.py
index a33136c..17423c6 100644
--- a/deepquantum/layers/qlayer.py
+++ b/deepquantum/layers/qlayer.py
@@ -8,7 +8,26 @@ Created on Tue Oct 26 10:00:55 2021
 import torch
 # import math
 # from qutorch.qgate import rx, ry, rz, multi_kron, cnot, cz, IsUnitary, Hadamard, rxx, ryy, rzz
-from deepquantum.gates import Circuit as cir
+from deepquantum.gates import qoperator as op
+from deepquantum.gates.qmath import multi_kron
+
+
+class cir(object):
+    '''
+    函数式的门接口，直接返回门的矩阵
+    （原先从deepquantum.gates导入的Circuit类已不再提供这种接口）
+    '''
+    multi_kron = staticmethod(multi_kron)
+    Hadamard = staticmethod(lambda: op.Hadamard().matrix)
+    rx = staticmethod(lambda theta: op.rx(theta).matrix)
+    ry = staticmethod(lambda theta: op.ry(theta).matrix)
+    rz = staticmethod(lambda theta: op.rz(theta).matrix)
+    rxx = staticmethod(lambda theta: op.rxx(theta).matrix)
+    ryy = staticmethod(lambda theta: op.ryy(theta).matrix)
+    rzz = staticmethod(lambda theta: op.rzz(theta).matrix)
+    cnot = staticmethod(lambda N, control, target: op.cnot(N, [control, target]).U_expand())
+    cz = staticmethod(lambda N, control, target: op.cz(N, [control, target]).U_expand())
+
 
 def XYZLayer(N, parameter_lst):
     if N < 1:
-- 
2.43.0


From 62ce918b0e3b6656c25768cf0e628a3b306a38a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 23/33] fix: single-precision SVD that does not converge
 aborted MPS evolution

---
 deepquantum/gates/qtensornetwork.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 29f3165..667843f 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -12,6 +12,19 @@ import time
 
 from typing import List
 
+def SVD(tensor:torch.Tensor):
+    '''
+    torch.svd在单精度下对个别矩阵（比如含有非规格化数的矩阵）不收敛并抛出异常，
+    此时用双精度做分解，再转换回原来的精度
+    '''
+    try:
+        return torch.svd(tensor)
+    except RuntimeError:
+        U,S,V = torch.svd( tensor.to(torch.promote_types(tensor.dtype,torch.float64)) )
+        return U.to(tensor.dtype), S.to(tensor.real.dtype), V.to(tensor.dtype)
+
+
+
 def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
     #t1 = time.time()
     #输入合法性检测：输入的态矢必须是1行2^N列的张量
@@ -32,7 +45,7 @@ def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
             rst_lst.append(c_tensor.view(2,-1,c_tensor.shape[1]))
             continue
         
-        U,S,V = torch.svd( c_tensor )
+        U,S,V = SVD( c_tensor )
         V_d = V.permute(1,0).conj()
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
         #print(D)
@@ -95,7 +108,7 @@ def TensorDecompAfterTwoQbitGate(tensor:torch.Tensor):
     block2 = torch.cat((tensor[1,0],tensor[1,1]),dim=1)
     tensor = torch.cat((block1,block2),dim=0)
     
-    U,S,V = torch.svd( tensor )
+    U,S,V = SVD( tensor )
     V_d = V.permute(1,0).conj()
     D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
     #print('D: ',D)
@@ -134,7 +147,7 @@ def TensorDecompAfterThreeQbitGate(tensor:torch.Tensor):
             blks = torch.chunk(tensor, chunks=2, dim=1)
             tensor = torch.cat((blks[0], blks[1]), dim=0)
         if i != 2:
-            U,S,V = torch.svd( tensor )
+            U,S,V = SVD( tensor )
             V_d = V.permute(1,0).conj()
             D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
             S = torch.diag(S) + 0j
@@ -227,7 +240,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
         NOTE:已知矩阵A做SVD分解得到U、S、V，若对10*A做SVD分解，将得到U,10*S,V
         所以，Rho的MPS和10*Rho的MPS是完全相同的
         '''
-        U,S,V = torch.svd(r_tensor)
+        U,S,V = SVD(r_tensor)
         #print(torch.max(S))
         V = V.permute(1,0).conj() #dag(V)
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
-- 
2.43.0


From 6791bb11fabfc5cebbc0d2bd5d0e5b7807912af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:13 +0000
Subject: [PATCH 24/33] fix: keep the autograd graph when u3, cu3 and layers
 get a list of tensors

torch.tensor(list_of_tensors) copies the values and silently detaches every
parameter, so back-propagation gave them no gradient.
---
 deepquantum/gates/qoperator.py | 17 +++++++++++++----
 deepquantum/layers/qlayers.py  | 28 ++++++++++++++--------------
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 060426f..0bed39f 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -30,6 +30,15 @@ class Operator(object):
         if len(set(wires)) != len(wires):
             raise ValueError("wires must be different from each other")
     
+    @staticmethod
+    def lst2tensor(params_lst):
+        '''
+        把参数列表转成一维张量；若列表元素是张量，不能用torch.tensor()，否则参数会脱离计算图
+        '''
+        if any(torch.is_tensor(p) for p in params_lst):
+            return torch.stack([(p + torch.tensor(0.0)).reshape(()) for p in params_lst])
+        return torch.tensor(params_lst)
+    
     @staticmethod #为了让该函数既可以实例化调用，也可以不实例化直接Operator.gate_expand_1toN()调用
     def gate_expand_1toN(gate, N, index):
         '''
@@ -578,7 +587,7 @@ class u3(SingleGateOperation):
         self.self_inverse = False
         
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = Operator.lst2tensor(theta_lst)
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
@@ -617,7 +626,7 @@ class u3(SingleGateOperation):
     def params_update(self,theta_lst):
         
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = Operator.lst2tensor(theta_lst)
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -1620,7 +1629,7 @@ class cu3(Operation):
         Operator.check_wires( N, wires, self.num_wires )
         
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = Operator.lst2tensor(theta_lst)
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -1756,7 +1765,7 @@ class cu3(Operation):
     
     def params_update(self,theta_lst):
         if type(theta_lst) == type([1]):
-            theta_lst = torch.tensor(theta_lst)
+            theta_lst = Operator.lst2tensor(theta_lst)
         self.params = theta_lst
         
         theta = theta_lst[0]
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 5124605..2a2c8b9 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -125,7 +125,7 @@ class XYZLayer(SingleGateLayer):
         Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -181,7 +181,7 @@ class XYZLayer(SingleGateLayer):
     
     def params_update(self,params_lst):
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
     
@@ -201,7 +201,7 @@ class ZYXLayer(SingleGateLayer):
         Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -257,7 +257,7 @@ class ZYXLayer(SingleGateLayer):
     
     def params_update(self,params_lst):
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -280,7 +280,7 @@ class YZYLayer(SingleGateLayer):
         Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -366,7 +366,7 @@ class YZYLayer(SingleGateLayer):
     
     def params_update(self,params_lst):
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -394,7 +394,7 @@ class XZXLayer(SingleGateLayer):
         Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -449,7 +449,7 @@ class XZXLayer(SingleGateLayer):
     
     def params_update(self,params_lst):
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -476,7 +476,7 @@ class XZLayer(SingleGateLayer):
         Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -521,7 +521,7 @@ class XZLayer(SingleGateLayer):
     
     def params_update(self,params_lst):
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -551,7 +551,7 @@ class ZXLayer(SingleGateLayer):
         Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
         self.supportTN = True
@@ -598,7 +598,7 @@ class ZXLayer(SingleGateLayer):
     
     def params_update(self,params_lst):
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -1010,7 +1010,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         Operation.check_wires( N, wires )
         #如果是列表，先转成tensor
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.repeat = repeat
@@ -1039,7 +1039,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
     
     def params_update(self,params_lst):
         if type(params_lst) == type([1]):
-            params_lst = torch.tensor(params_lst)
+            params_lst = Operation.lst2tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.part1_lst, self.part2_lst = [], []
-- 
2.43.0


From 8c9ee5405a1cbf42ec0d7093841ac7040c239740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 25/33] fix: Rho2MPS accepts non-contiguous and real density
 matrices

---
 deepquantum/gates/qtensornetwork.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 667843f..0d0e31d 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -211,7 +211,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
     if Rho.shape[0] != 2**N or Rho.shape[1] != 2**N:
         raise ValueError('Rho2MPS : dimension of rho must be [2^N, 2^N]')
     MPS_lst = []
-    r_tensor = Rho.view(1,-1)
+    r_tensor = Rho.reshape(1,-1) + 0j #Rho可能是不连续的（比如dag的结果）或实数的
     for i in range(N):
         #密度矩阵的reshape过程比态矢复杂得多
         r_tensor = torch.cat(torch.chunk(r_tensor, chunks=2, dim=1),dim=0)#先竖着切一刀，按照行堆叠
-- 
2.43.0


From 941258d581fb9315d0dfc0951b6ab5be09e6b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:40 +0000
Subject: [PATCH 26/33] fix: list of numpy numbers as parameters of layers

---
 deepquantum/gates/qoperator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 0bed39f..4f3303f 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -37,7 +37,8 @@ class Operator(object):
         '''
         if any(torch.is_tensor(p) for p in params_lst):
             return torch.stack([(p + torch.tensor(0.0)).reshape(()) for p in params_lst])
-        return torch.tensor(params_lst)
+        #元素是numpy浮点数时，不指定dtype会得到双精度张量，与单精度的门矩阵无法相乘
+        return torch.tensor(params_lst, dtype=torch.get_default_dtype())
     
     @staticmethod #为了让该函数既可以实例化调用，也可以不实例化直接Operator.gate_expand_1toN()调用
     def gate_expand_1toN(gate, N, index):
-- 
2.43.0


From cbba5c7bc5c93125307bb394f1fb40bec52eec11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:06 +0000
Subject: [PATCH 27/33] fix: repeat an SVD in double precision when single
 precision returns nan

---
 deepquantum/gates/qtensornetwork.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 0d0e31d..8c1dd08 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -14,14 +14,17 @@ from typing import List
 
 def SVD(tensor:torch.Tensor):
     '''
-    torch.svd在单精度下对个别矩阵（比如含有非规格化数的矩阵）不收敛并抛出异常，
+    torch.svd在单精度下对个别矩阵（比如含有非规格化数的矩阵）不收敛并抛出异常，或者返回nan，
     此时用双精度做分解，再转换回原来的精度
     '''
     try:
-        return torch.svd(tensor)
+        U,S,V = torch.svd(tensor)
+        if all(torch.isfinite(x).all() for x in (U,S,V)):
+            return U,S,V
     except RuntimeError:
-        U,S,V = torch.svd( tensor.to(torch.promote_types(tensor.dtype,torch.float64)) )
-        return U.to(tensor.dtype), S.to(tensor.real.dtype), V.to(tensor.dtype)
+        pass
+    U,S,V = torch.svd( tensor.to(torch.promote_types(tensor.dtype,torch.float64)) )
+    return U.to(tensor.dtype), S.to(tensor.real.dtype), V.to(tensor.dtype)
 
 
 
-- 
2.43.0


From 15e03394369d815beabed58c0a6cf06182ebec33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:12 +0000
Subject: [PATCH 28/33] fix: parameter shift under no_grad left the gates
 detached from their parameters

---
 deepquantum/gates/qcircuit.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index cc29700..a5a33ec 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -314,13 +314,15 @@ class parameter_shift(object):
             if len(p.shape) == 0:
                 #只有单个参数
                 grad_lst.append( self._shifted_diff(gate, p, ()) )
-                gate.params_update(p) #最后别忘了把参数恢复
+                with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
+                    gate.params_update(p) #最后别忘了把参数恢复
             
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i in range(len(p)):
                     grad_lst.append( self._shifted_diff(gate, p, i) )
-                gate.params_update(p) #最后别忘了把参数恢复
+                with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
+                    gate.params_update(p) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
@@ -431,13 +433,15 @@ class parameter_shift(object):
             if len(p.shape) == 0:
                 #只有单个参数
                 grad_lst.append( self._overlap_diff(gate, p, (), MPS0, psi2) )
-                gate.params_update(p) #最后别忘了把参数恢复
+                with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
+                    gate.params_update(p) #最后别忘了把参数恢复
                 
             elif len(p.shape) == 1:
                 #参数是个一维张量
                 for i in range(len(p)):
                     grad_lst.append( self._overlap_diff(gate, p, i, MPS0, psi2) )
-                gate.params_update(p) #最后别忘了把参数恢复
+                with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
+                    gate.params_update(p) #最后别忘了把参数恢复
             else:
                 raise ValueError('cal_params_grad: error about params shape')
                         
-- 
2.43.0


From 71c3a13062c7dca46e5e3cb21c9a3075652b4c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 29/33] fix: legacy circuit recorded calls that it then
 rejected

---
 deepquantum/gates/qgate.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index a7ae525..39a8dc0 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -172,36 +172,33 @@ class Circuit(object):
             "target qubit is not integer"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
-        self._add_gate('rx', target_qubit, phi)
         if type(phi) == float or type(phi) == int:
-            phi = torch.tensor(phi)
-            self._add_u(self.gate_expand_1toN(self._rx(phi), self.n_qubits, target_qubit))
+            self._add_u(self.gate_expand_1toN(self._rx(torch.tensor(phi)), self.n_qubits, target_qubit))
         else:
             self._add_u(self.gate_expand_1toN(self._rx(phi), self.n_qubits, target_qubit))
+        self._add_gate('rx', target_qubit, phi)
 
     def ry(self, target_qubit, phi):
         assert isinstance(target_qubit, int), \
             "target qubit is not integer"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
-        self._add_gate('ry', target_qubit, phi)
         if type(phi) == float or type(phi) == int:
-            phi = torch.tensor(phi)
-            self._add_u(self.gate_expand_1toN(self._ry(phi), self.n_qubits, target_qubit))
+            self._add_u(self.gate_expand_1toN(self._ry(torch.tensor(phi)), self.n_qubits, target_qubit))
         else:
             self._add_u(self.gate_expand_1toN(self._ry(phi), self.n_qubits, target_qubit))
+        self._add_gate('ry', target_qubit, phi)
 
     def rz(self, target_qubit, phi):
         assert isinstance(target_qubit, int), \
             "target qubit is not integer"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
-        self._add_gate('rz', target_qubit, phi)
         if type(phi) == float or type(phi) == int:
-            phi = torch.tensor(phi)
-            self._add_u(self.gate_expand_1toN(self._rz(phi), self.n_qubits, target_qubit))
+            self._add_u(self.gate_expand_1toN(self._rz(torch.tensor(phi)), self.n_qubits, target_qubit))
         else:
             self._add_u(self.gate_expand_1toN(self._rz(phi), self.n_qubits, target_qubit))
+        self._add_gate('rz', target_qubit, phi)
 
     def cnot(self, control_qubit: int, target_qubit: int):
         assert isinstance(target_qubit, int), \
@@ -212,8 +209,8 @@ class Circuit(object):
             "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
-        self._add_gate('cnot', [control_qubit, target_qubit],None)
         self._add_u(self.two_qubit_control_gate(self._x_gate(), self.n_qubits, control_qubit, target_qubit))
+        self._add_gate('cnot', [control_qubit, target_qubit],None)
 
     def x_gate(self, target_qubit):
         assert isinstance(target_qubit, int), \
@@ -249,8 +246,8 @@ class Circuit(object):
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
 
-        self._add_gate('cz', [control_qubit, target_qubit],None)
         self._add_u(self.two_qubit_control_gate(self._z_gate(), self.n_qubits, control_qubit, target_qubit))
+        self._add_gate('cz', [control_qubit, target_qubit],None)
 
     def Hadamard(self, target_qubit):
         assert isinstance(target_qubit, int), \
@@ -272,12 +269,11 @@ class Circuit(object):
 
         # self._add_gate('rxx', target_qubit01, phi)
         # self._add_gate('rxx', target_qubit02, phi)
-        self._add_gate('rxx',[target_qubit01,target_qubit02], phi)
         if type(phi) == float or type(phi) == int:
-            phi = torch.tensor(phi)
-            self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rxx'))
+            self._add_u(self.two_qubit_rotation_gate(torch.tensor(phi), self.n_qubits, target_qubit01, target_qubit02, way='rxx'))
         else:
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rxx'))
+        self._add_gate('rxx',[target_qubit01,target_qubit02], phi)
 
     def ryy(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
@@ -294,12 +290,11 @@ class Circuit(object):
 
         # self._add_gate('ryy', target_qubit01, phi)
         # self._add_gate('ryy', target_qubit02, phi)
-        self._add_gate('ryy', [target_qubit01,target_qubit02], phi)
         if type(phi) == float or type(phi) == int:
-            phi = torch.tensor(phi)
-            self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='ryy'))
+            self._add_u(self.two_qubit_rotation_gate(torch.tensor(phi), self.n_qubits, target_qubit01, target_qubit02, way='ryy'))
         else:
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='ryy'))
+        self._add_gate('ryy', [target_qubit01,target_qubit02], phi)
 
     def rzz(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
@@ -313,16 +308,15 @@ class Circuit(object):
 
         # self._add_gate('rzz', target_qubit01, phi)
         # self._add_gate('rzz', target_qubit02, phi)
-        self._add_gate('rzz', [target_qubit01,target_qubit02], phi)
         if type(phi) == float or type(phi) == int:
-            phi = torch.tensor(phi)
-            self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rzz'))
+            self._add_u(self.two_qubit_rotation_gate(torch.tensor(phi), self.n_qubits, target_qubit01, target_qubit02, way='rzz'))
         else:
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rzz'))
+        self._add_gate('rzz', [target_qubit01,target_qubit02], phi)
 
     def multi_control_cnot(self, control_lst, target):
-        self._add_gate('multi_control_cnot', list(control_lst) + [target], None)
         self._add_u(self.multi_control_gate(self._x_gate(), self.n_qubits, control_lst, target))
+        self._add_gate('multi_control_cnot', list(control_lst) + [target], None)
 
     def U(self):
         return self.gate_sequence_product()
-- 
2.43.0


From cf20a953ba583b4f29e008762086622d59b57f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 30/33] fix: Circuit.add kept an object it could not read in
 the list of operations

---
 deepquantum/gates/qcircuit.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index a5a33ec..c0a73e4 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -40,12 +40,12 @@ class Circuit(object):
         return state_init
 
     def add(self, gate):
+        #先取出参数，gate不合法时报错，而不会在线路中留下半个操作
+        num_params = gate.num_params
+        params = gate.params if num_params != 0 else None
         self.gate.append(gate)
-        if gate.num_params != 0:
-            self.cir_num_params += gate.num_params
-            self.cir_params[len(self.gate)-1] = gate.params
-        else:
-            self.cir_params[len(self.gate)-1] = None
+        self.cir_num_params += num_params
+        self.cir_params[len(self.gate)-1] = params
 
     
     def U(self, left_to_right=True,cuda=False):
-- 
2.43.0


From 2c85fe2f06a44808d9858ebc2dc6c16d16d5f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 31/33] fix: a failing parameter-shift or saved-state gradient
 left shifted parameters behind

---
 deepquantum/gates/qcircuit.py | 50 +++++++++++++++++------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index c0a73e4..1598ab2 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -311,20 +311,19 @@ class parameter_shift(object):
                 continue
                 
             p = gate.params #当前参数，计算完毕后原样恢复
-            if len(p.shape) == 0:
-                #只有单个参数
-                grad_lst.append( self._shifted_diff(gate, p, ()) )
+            try:
+                if len(p.shape) == 0:
+                    #只有单个参数
+                    grad_lst.append( self._shifted_diff(gate, p, ()) )
+                elif len(p.shape) == 1:
+                    #参数是个一维张量
+                    for i in range(len(p)):
+                        grad_lst.append( self._shifted_diff(gate, p, i) )
+                else:
+                    raise ValueError('cal_params_grad: error about params shape')
+            finally:
                 with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
-                    gate.params_update(p) #最后别忘了把参数恢复
-            
-            elif len(p.shape) == 1:
-                #参数是个一维张量
-                for i in range(len(p)):
-                    grad_lst.append( self._shifted_diff(gate, p, i) )
-                with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
-                    gate.params_update(p) #最后别忘了把参数恢复
-            else:
-                raise ValueError('cal_params_grad: error about params shape')
+                    gate.params_update(p) #最后别忘了把参数恢复，中途出错也要恢复
                         
         assert len(grad_lst) == self.cir.cir_num_params
         return torch.tensor(grad_lst)
@@ -430,20 +429,19 @@ class parameter_shift(object):
                 MPS0 = save_dict[idx-1]
             psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
             
-            if len(p.shape) == 0:
-                #只有单个参数
-                grad_lst.append( self._overlap_diff(gate, p, (), MPS0, psi2) )
+            try:
+                if len(p.shape) == 0:
+                    #只有单个参数
+                    grad_lst.append( self._overlap_diff(gate, p, (), MPS0, psi2) )
+                elif len(p.shape) == 1:
+                    #参数是个一维张量
+                    for i in range(len(p)):
+                        grad_lst.append( self._overlap_diff(gate, p, i, MPS0, psi2) )
+                else:
+                    raise ValueError('cal_params_grad: error about params shape')
+            finally:
                 with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
-                    gate.params_update(p) #最后别忘了把参数恢复
-                
-            elif len(p.shape) == 1:
-                #参数是个一维张量
-                for i in range(len(p)):
-                    grad_lst.append( self._overlap_diff(gate, p, i, MPS0, psi2) )
-                with torch.enable_grad(): #在no_grad下恢复也不能让门的矩阵脱离参数
-                    gate.params_update(p) #最后别忘了把参数恢复
-            else:
-                raise ValueError('cal_params_grad: error about params shape')
+                    gate.params_update(p) #最后别忘了把参数恢复，中途出错也要恢复
                         
         assert len(grad_lst) == self.cir.cir_num_params
         return torch.tensor(grad_lst)
-- 
2.43.0


From 40f31d89be0db8fab1f02baa0d39fabf788ef1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:39 +0000
Subject: [PATCH 32/33] fix: gates and params_update took a wrong number of
 parameters for something else

---
 deepquantum/gates/qoperator.py | 33 ++++++++++++++++++++++++++++++++-
 deepquantum/layers/qlayers.py  |  7 +++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 4f3303f..e4adad6 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -30,6 +30,18 @@ class Operator(object):
         if len(set(wires)) != len(wires):
             raise ValueError("wires must be different from each other")
     
+    @staticmethod
+    def check_params(params, num_params):
+        '''
+        检查参数个数是否正确，params可以是一个数、列表或张量
+        '''
+        if torch.is_tensor(params):
+            num = params.numel()
+        else:
+            num = len(params) if isinstance(params, Iterable) and getattr(params,'ndim',1) > 0 else 1
+        if num != num_params:
+            raise ValueError("number of parameters must be "+str(num_params))
+    
     @staticmethod
     def lst2tensor(params_lst):
         '''
@@ -377,6 +389,7 @@ class rx(SingleGateOperation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliX().matrix + 0j
@@ -402,6 +415,7 @@ class rx(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        Operator.check_params( params, self.num_params )
         if not torch.is_tensor(params):
             params = params + torch.tensor(0.0)
         self.params = params
@@ -431,6 +445,7 @@ class ry(SingleGateOperation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliY().matrix + 0j
@@ -455,6 +470,7 @@ class ry(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        Operator.check_params( params, self.num_params )
         if not torch.is_tensor(params):
             params = params + torch.tensor(0.0)
         self.params = params
@@ -484,6 +500,7 @@ class rz(SingleGateOperation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(theta/2.0)*PauliZ().matrix + 0j
@@ -507,6 +524,7 @@ class rz(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        Operator.check_params( params, self.num_params )
         if not torch.is_tensor(params):
             params = params + torch.tensor(0.0)
         self.params = params
@@ -533,6 +551,7 @@ class u1(SingleGateOperation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
@@ -564,6 +583,7 @@ class u1(SingleGateOperation):
         return info
     
     def params_update(self,theta):
+        Operator.check_params( theta, self.num_params )
         theta = theta + torch.tensor(0.0)
         self.params = theta
         
@@ -592,6 +612,7 @@ class u3(SingleGateOperation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta_lst, self.num_params )
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -625,7 +646,7 @@ class u3(SingleGateOperation):
         return info
     
     def params_update(self,theta_lst):
-        
+        Operator.check_params( theta_lst, self.num_params )
         if type(theta_lst) == type([1]):
             theta_lst = Operator.lst2tensor(theta_lst)
         self.params = theta_lst
@@ -661,6 +682,7 @@ class rxx(Operation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -787,6 +809,7 @@ class rxx(Operation):
         return info
     
     def params_update(self,params):
+        Operator.check_params( params, self.num_params )
         if not torch.is_tensor(params):
             params = params + torch.tensor(0.0)
         self.params = params
@@ -820,6 +843,7 @@ class ryy(Operation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -928,6 +952,7 @@ class ryy(Operation):
         return info
     
     def params_update(self,params):
+        Operator.check_params( params, self.num_params )
         if not torch.is_tensor(params):
             params = params + torch.tensor(0.0)
         self.params = params
@@ -961,6 +986,7 @@ class rzz(Operation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         self.params = theta
         self.matrix = torch.cos(theta/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(theta/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
@@ -1067,6 +1093,7 @@ class rzz(Operation):
         return info
     
     def params_update(self,params):
+        Operator.check_params( params, self.num_params )
         if not torch.is_tensor(params):
             params = params + torch.tensor(0.0)
         self.params = params
@@ -1469,6 +1496,7 @@ class cphase(Operation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta, self.num_params )
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -1605,6 +1633,7 @@ class cphase(Operation):
         return info
     
     def params_update(self,theta):
+        Operator.check_params( theta, self.num_params )
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -1628,6 +1657,7 @@ class cu3(Operation):
         self.nqubits = N
         self.wires = wires
         Operator.check_wires( N, wires, self.num_wires )
+        Operator.check_params( theta_lst, self.num_params )
         
         if type(theta_lst) == type([1]):
             theta_lst = Operator.lst2tensor(theta_lst)
@@ -1765,6 +1795,7 @@ class cu3(Operation):
         return info
     
     def params_update(self,theta_lst):
+        Operator.check_params( theta_lst, self.num_params )
         if type(theta_lst) == type([1]):
             theta_lst = Operator.lst2tensor(theta_lst)
         self.params = theta_lst
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 2a2c8b9..965e762 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -180,6 +180,7 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params( params_lst, self.num_params )
         if type(params_lst) == type([1]):
             params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
@@ -256,6 +257,7 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params( params_lst, self.num_params )
         if type(params_lst) == type([1]):
             params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
@@ -365,6 +367,7 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params( params_lst, self.num_params )
         if type(params_lst) == type([1]):
             params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
@@ -448,6 +451,7 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params( params_lst, self.num_params )
         if type(params_lst) == type([1]):
             params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
@@ -520,6 +524,7 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params( params_lst, self.num_params )
         if type(params_lst) == type([1]):
             params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
@@ -597,6 +602,7 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params( params_lst, self.num_params )
         if type(params_lst) == type([1]):
             params_lst = Operation.lst2tensor(params_lst)
         self.params = params_lst
@@ -1038,6 +1044,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
+        Operation.check_params( params_lst, self.num_params )
         if type(params_lst) == type([1]):
             params_lst = Operation.lst2tensor(params_lst)
         self.num_params = len(params_lst)
-- 
2.43.0


From 0c9c7229456f31ba7fe482f952309473f913caad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:37 +0000
Subject: [PATCH 33/33] fix: params_update took a parameter row, (1,n), for n
 parameters

---
 deepquantum/gates/qoperator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index e4adad6..fdd3647 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -37,6 +37,8 @@ class Operator(object):
         '''
         if torch.is_tensor(params):
             num = params.numel()
+            if params.dim() > 1 and len(params) != num:
+                raise ValueError("parameters must be listed one by one")
         else:
             num = len(params) if isinstance(params, Iterable) and getattr(params,'ndim',1) > 0 else 1
         if num != num_params:
-- 
2.43.0

