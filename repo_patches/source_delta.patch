From 0b8c761dd074e1b540a3474dddb6025c4ba2b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 01/33] fix: rxx/ryy/rzz range check tested the first wire
 twice

An out-of-range second wire escaped the check and surfaced as IndexError.
---
 deepquantum/gates/qoperator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 786d458..61ea8e5 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -628,7 +628,7 @@ class rxx(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
@@ -762,7 +762,7 @@ class ryy(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
@@ -898,7 +898,7 @@ class rzz(Operation):
         if self.nqubits != -1 and self.wires != -1:
             if self.nqubits < 1:
                 raise ValueError("number of qubits N must be >= 1")
-            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[0] > self.nqubits - 1:
+            if self.wires[0] < 0 or self.wires[0] > self.nqubits - 1 or self.wires[1] < 0  or self.wires[1] > self.nqubits - 1:
                 raise ValueError("qbit index must between 0~N-1")
             if self.wires[0] == self.wires[1]:
                 raise ValueError("qbit1 cannot be equal to qbit2")
-- 
2.43.0


From 471060410dee733d3d45f7d3606376d4338477e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 02/33] fix: rxx/ryy/rzz claim tensor-network support but had
 no TN_operation

Any circuit holding one of them passed TN_check and then raised
AttributeError in TN_evolution, cir_expectation and save_mid_MPS.
---
 deepquantum/gates/qoperator.py | 35 ++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 61ea8e5..eb6aa3e 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -94,6 +94,32 @@ class Operation(Operator):
             lst3[each] = one_one
         #multi_kron(lst2) - multi_kron(lst3)对应不做操作的哪些情况
         return multi_kron(lst2) - multi_kron(lst3) + multi_kron(lst1) + 0j
+
+    def _symmetric_TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        '''
+        供rxx、ryy、rzz使用：这几个门对两个比特对称，所以self.matrix与wires的先后顺序无关
+        '''
+        if self.nqubits == -1 or self.wires == -1:
+            raise ValueError(self.label+" gate input error! cannot TN_operation")
+        upqbit = min(self.wires)
+        downqbit = max(self.wires)
+        
+        for i in range(upqbit,downqbit-1):
+            MPS = SWAP(self.nqubits,[i,i+1]).TN_operation(MPS)
+        
+        temp = (MPS[downqbit-1].unsqueeze(1) @ MPS[downqbit].unsqueeze(0) ).permute(2,3,0,1)
+        shape = temp.shape
+        temp = temp.view(shape[0],shape[1],shape[2]*shape[3],1)
+        temp = self.matrix @ temp
+        temp = temp.view(shape[0],shape[1],shape[2],shape[3])
+        temp = temp.permute(2,3,0,1)
+        #融合后的张量恢复成两个张量
+        MPS[downqbit-1],MPS[downqbit] = TensorDecompAfterTwoQbitGate(temp)
+        
+        for i in range(downqbit-1,upqbit,-1):
+            MPS = SWAP(self.nqubits,[i-1,i]).TN_operation(MPS)
+        
+        return MPS
     
  
     
@@ -641,6 +667,9 @@ class rxx(Operation):
         else:
             raise ValueError("Rxx gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        return self._symmetric_TN_operation(MPS)
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
@@ -775,6 +804,9 @@ class ryy(Operation):
         else:
             raise ValueError("Ryy gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        return self._symmetric_TN_operation(MPS)
+    
     
     
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
@@ -911,6 +943,9 @@ class rzz(Operation):
         else:
             raise ValueError("Rzz gate input error! cannot expand")
     
+    def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
+        return self._symmetric_TN_operation(MPS)
+    
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
-- 
2.43.0


From 6845dbd9514a144c6ebf9f4843decd3325ea9b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 03/33] fix: measure(..., ith=0) measured every qubit instead
 of qubit 0

---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 0c1fd99..058dc0a 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -208,7 +208,7 @@ def _Zmeasure(n_qubit:int, ith=None):
     #生成测量力学量的列表
     #print(n_qubit,type(n_qubit))
     M_lst = []
-    if not ith:
+    if ith is None:
         for i in range(n_qubit):
             Mi = dq.PauliZ(n_qubit, i).U_expand()
             M_lst.append(Mi)
-- 
2.43.0


From 5179d5b8b1dfcd662fbab115f047b307e58d198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 04/33] fix: measure() cut the gradient of its result

QuanConv2D.weight could never be trained: torch.tensor() on a list of
scalars detaches them.
---
 deepquantum/gates/qmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 058dc0a..1d6d5f8 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -250,7 +250,7 @@ def measure(n_qubit, state, ith=None):
     M_lst = _Zmeasure(n_qubit, ith)
     for Mi in M_lst:
         measure_rst.append(expval(state, Mi, rho=rho))
-    return torch.tensor(measure_rst)
+    return torch.stack(measure_rst)
 
 if __name__ == '__main__':
     
-- 
2.43.0


From be22c8419becb561b8f24402a3ed4c156cafd5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 05/33] fix: partial_trace reordered the caller's trace_lst

---
 deepquantum/gates/qmath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qmath.py b/deepquantum/gates/qmath.py
index 1d6d5f8..31f0402 100644
--- a/deepquantum/gates/qmath.py
+++ b/deepquantum/gates/qmath.py
@@ -133,7 +133,7 @@ def partial_trace_old(rho,N,trace_lst):
     if len(trace_lst)!=0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
@@ -163,7 +163,7 @@ def partial_trace(rho, N, trace_lst):
     if len(trace_lst) != 0 and max(trace_lst) > N - 1:
         raise ValueError('element in trace_lst must be less than N-1')
     
-    trace_lst.sort()#必须从小到大排列
+    trace_lst = sorted(trace_lst)#必须从小到大排列
     rho = rho + 0j
     if len(trace_lst) == 0:
         return rho + 0j
-- 
2.43.0


From 6d5791c4a4e43928d911ea98e102753b3f42bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 06/33] fix: MPS_expec applied the observables to the caller's
 MPS

A second expectation value taken from the same MPS was wrong.
---
 deepquantum/gates/qtensornetwork.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ed96e33..f1e0c8e 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -201,6 +201,7 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
     SV0 = MPS2StateVec(MPS).view(1,-1)
+    MPS = list(MPS) #不改变调用者的MPS
     
     for i,qbit in enumerate(wires):
         temp = MPS[qbit]
-- 
2.43.0


From ac86d648425b9a2daae6c26bd219a51258a23bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 07/33] fix: MPS_inner_product failed on bonds of dimension 1
 and on one qubit

squeeze() dropped bond axes of size 1, so product states raised an
error; a single qubit left the result undefined.
---
 deepquantum/gates/qtensornetwork.py | 43 ++++-------------------------
 1 file changed, 5 insertions(+), 38 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index f1e0c8e..f0fd5e7 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -152,46 +152,13 @@ def MPS_inner_product(ketMPS,braMPS):
     '''
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
-    #上限12个qubit
     N = len(ketMPS)
-    lst = []
+    t = torch.ones(1,1) + 0j
     for i in range(N):
-        t1 = ketMPS[i]
-        t2 = braMPS[i]
-        t1 = t1.permute(1,2,0)
-        t2 = t2.permute(1,2,0)
-        
-        for j in range(3):
-            t1 = t1.unsqueeze(2*j+1)
-            t2 = t2.unsqueeze(2*j)
-        qbit_tensor = (t2.conj() @ t1).squeeze()
-        lst.append(qbit_tensor)
-    
-    for i in range(len(lst)-1):
-        if i == 0:
-            t = lst[i]
-            
-        t_nxt = lst[i+1]
-        if i != len(lst) - 2:
-            t_nxt = t_nxt.permute(2,3,0,1)
-        
-        t = t.unsqueeze(-2).unsqueeze(-4) #1212
-        t_nxt = t_nxt.unsqueeze(-1).unsqueeze(-3) #442121
-        
-        temp = t @ t_nxt #442211
-        temp = temp.squeeze() #4422
-        if i != len(lst) - 2:
-            '''
-            einsum高阶张量求迹，TZH我的超人！！！
-            '''
-            t = torch.einsum('abii->ab',temp)
-            # for k in range(temp.shape[2]):
-            #     if k == 0:
-            #         t = temp[:,:,0,0]
-            #     else:
-            #         t += temp[:,:,k,k]
-        else:
-            t = torch.trace(temp)
+        #逐个qubit收缩：先收缩bra，再收缩ket
+        t = torch.einsum('ab,iac->ibc',[t,braMPS[i].conj()])
+        t = torch.einsum('ibc,ibd->cd',[t,ketMPS[i]])
+    t = t.squeeze()
     #返回的是内积，不是内积的模平方
     return t
 
-- 
2.43.0


From d67d66d94d882c1ffc219e5d64f8340930b272f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:42 +0000
Subject: [PATCH 08/33] fix: ring_of_cnot claims tensor-network support for any
 wires but rejected most

On a subset or reordering of the qubits (or a tuple) TN_check passed and
TN_operation/TN_contract then raised, so cir_expectation failed although the
dense expansion of the same layer is defined.
---
 deepquantum/layers/qlayers.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 307f8bd..5856583 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -686,9 +686,12 @@ class ring_of_cnot(TwoQbitGateLayer):
         '''
         只支持自上而下的cnot，即上方的qbit一定是control，下方的一定是target
         '''
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot,TN_operation error')
         L = len(self.wires)
+        if list(self.wires) != list( range(self.nqubits) ):
+            #wires不是全部比特（或不按顺序）时，逐个作用cnot
+            for i in (range(L) if L > 2 else [0]):
+                MPS = cnot(self.nqubits,[self.wires[i],self.wires[(i+1)%L]]).TN_operation(MPS)
+            return MPS
         for i in range(L-1):
             MPS = cnot(self.nqubits,[i,i+1]).TN_operation(MPS)
             # temp1 = MPS[self.wires[i]] #control bit
@@ -744,12 +747,10 @@ class ring_of_cnot(TwoQbitGateLayer):
         return MPS
     
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot,TN_contract error')
         L = len(self.wires)
         
-        if self.nqubits == 2:
-            MPS = cnot( 2,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
+        if L == 2:
+            MPS = cnot( self.nqubits,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
             return MPS
         
         for i in range(L):
@@ -836,10 +837,12 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
     
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot_dagger,TN_operation error')
-        
         L = len(self.wires)
+        if list(self.wires) != list( range(self.nqubits) ):
+            #wires不是全部比特（或不按顺序）时，逐个作用cnot
+            for i in (range(L-1,-1,-1) if L > 2 else [0]):
+                MPS = cnot(self.nqubits,[self.wires[i],self.wires[(i+1)%L]]).TN_operation(MPS)
+            return MPS
         
         if self.nqubits == 2:
             MPS = cnot(2,[0,1]).TN_operation(MPS)
@@ -860,12 +863,10 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
     
     
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
-        if self.wires != list( range(self.nqubits) ):
-            raise ValueError('ring_of_cnot_dagger,TN_contract error')
         L = len(self.wires)
         
-        if self.nqubits == 2:
-            MPS = cnot( 2,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
+        if L == 2:
+            MPS = cnot( self.nqubits,[self.wires[0],self.wires[1]] ).TN_contract(MPS, batch_mod=batch_mod)
             return MPS
         
         for i in range(L-1,-1,-1):
-- 
2.43.0


From 571e73788b14a12cdb5ff18f7eede83e627a2e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 09/33] fix: Circuit.clear kept the parameters of the gates it
 removed

After clear() the parameter count stayed, and parameter_shift failed its
own assertion on the refilled circuit.
---
 deepquantum/gates/qcircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6396bba..6dd59ae 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -152,6 +152,8 @@ class Circuit(object):
     
     def clear(self):
         self.gate = []
+        self.cir_params = {}
+        self.cir_num_params = 0
         #self._U = torch.tensor(1.0) + 0j
 
         
-- 
2.43.0


From 355601f989fd79ea677e20643338de54612b041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 10/33] fix: params_update rejected the plain numbers and lists
 the constructors accept

rx(0.3).params_update(0.2) and XYZLayer.params_update([...]) raised
TypeError; BasicEntangleLayer kept a list as its params, which broke
parameter_shift.
---
 deepquantum/gates/qoperator.py |  6 ++++++
 deepquantum/layers/qlayers.py  | 16 ++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index eb6aa3e..0b5580d 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -395,6 +395,7 @@ class rx(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliX().matrix + 0j
@@ -445,6 +446,7 @@ class ry(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j
@@ -494,6 +496,7 @@ class rz(SingleGateOperation):
         return info
     
     def params_update(self,params):
+        params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliZ().matrix + 0j
@@ -750,6 +753,7 @@ class rxx(Operation):
         return info
     
     def params_update(self,params):
+        params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -889,6 +893,7 @@ class ryy(Operation):
         return info
     
     def params_update(self,params):
+        params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -1026,6 +1031,7 @@ class rzz(Operation):
         return info
     
     def params_update(self,params):
+        params = params + torch.tensor(0.0)
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 5856583..1414bcf 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -179,6 +179,8 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
     
@@ -252,6 +254,8 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -358,6 +362,8 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -438,6 +444,8 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -507,6 +515,8 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -581,6 +591,8 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.params = params_lst
         self.num_params = len(params_lst)
 
@@ -986,6 +998,8 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         
         self.nqubits = N
         self.wires = wires
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.repeat = repeat
@@ -1013,6 +1027,8 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if type(params_lst) == type([1]):
+            params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
         self.params = params_lst
         self.part1_lst, self.part2_lst = [], []
-- 
2.43.0


From b0e5f2bbf83870c8c82b6bfb77ff9fa1209f3986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 11/33] fix: operation_dagger of trainable layers raised, that
 of u3/cu3 cut the gradient

copy.deepcopy refuses non-leaf tensors, and a list of tensors was turned
into a new detached tensor.
---
 deepquantum/gates/qoperator.py |  4 ++--
 deepquantum/layers/qlayers.py  | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 0b5580d..5934a67 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -602,7 +602,7 @@ class u3(SingleGateOperation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return u3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return u3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     
     def info(self):
@@ -1715,7 +1715,7 @@ class cu3(Operation):
     
     def operation_dagger(self):
         theta, phi, lambd = self.params[0],self.params[1],self.params[2]
-        return cu3([-theta,-lambd,-phi],self.nqubits,self.wires)
+        return cu3(torch.stack([-theta,-lambd,-phi]),self.nqubits,self.wires)
     
     def info(self):
         #将门的信息整合后return，用来添加到circuit的gate_lst中
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 1414bcf..958da86 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -169,7 +169,7 @@ class XYZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return ZYXLayer(self.nqubits,self.wires,params_tensor)
@@ -244,7 +244,7 @@ class ZYXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XYZLayer(self.nqubits,self.wires,params_tensor)
@@ -352,7 +352,7 @@ class YZYLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return YZYLayer(self.nqubits,self.wires,params_tensor)
@@ -434,7 +434,7 @@ class XZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[3*i+0] )
+            temp = params_tensor[3*i+0].clone()
             params_tensor[3*i+0] = params_tensor[3*i+2]
             params_tensor[3*i+2] = temp
         return XZXLayer(self.nqubits,self.wires,params_tensor)
@@ -505,7 +505,7 @@ class XZLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return ZXLayer(self.nqubits,self.wires,params_tensor)
@@ -581,7 +581,7 @@ class ZXLayer(SingleGateLayer):
     def operation_dagger(self):
         params_tensor = -1*self.params
         for i in range(len(self.wires)):
-            temp = copy.deepcopy( params_tensor[2*i+0] )
+            temp = params_tensor[2*i+0].clone()
             params_tensor[2*i+0] = params_tensor[2*i+1]
             params_tensor[2*i+1] = temp
         return XZLayer(self.nqubits,self.wires,params_tensor)
-- 
2.43.0


From f8b09d9ad23621bf12aa4e04092b9c5c77a1766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 12/33] fix: u1/cphase lost the gradient of their parameter

cphase.U_expand and u1/cphase.params_update built the matrix with
torch.tensor() from a tensor entry, which detaches it: training through
the dense unitary silently did nothing.
---
 deepquantum/gates/qoperator.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 5934a67..5986b39 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -555,7 +555,7 @@ class u1(SingleGateOperation):
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0],[0,exp_itheta]]) + 0j
+        self.matrix = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
 
 
 
@@ -1448,7 +1448,7 @@ class cphase(Operation):
     def U_expand(self):
         if self.nqubits != -1 and self.wires != -1:
             exp_itheta = torch.cos(self.params) + 1j * torch.sin(self.params)
-            phase_gate = torch.tensor( [[1,0],[0,exp_itheta]] ) + 0j
+            phase_gate = torch.eye(2,2) + (exp_itheta-1)*torch.tensor([[0,0],[0,1]])
             control = self.wires[0]
             target = self.wires[1]
             return Operation.two_qubit_control_gate( phase_gate, self.nqubits, control, target )
@@ -1568,10 +1568,9 @@ class cphase(Operation):
         theta = theta + torch.tensor(0.0)
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
-        self.matrix = torch.tensor([[1,0,0,0],\
-                                    [0,1,0,0],\
-                                    [0,0,1,0],\
-                                    [0,0,0,exp_itheta]]) + 0j
+        mt = torch.zeros(4,4)
+        mt[3,3] = 1.0
+        self.matrix = torch.eye(4,4) + (exp_itheta-1)*mt
 
 
 
-- 
2.43.0


From d286ab6719c814cbec07f233ea7ca21e2dfffc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 13/33] fix: PrepareRho did not conjugate, so complex states
 gave no density matrix

---
 deepquantum/embeddings/qstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qstate.py b/deepquantum/embeddings/qstate.py
index e1d90b9..2fbe998 100644
--- a/deepquantum/embeddings/qstate.py
+++ b/deepquantum/embeddings/qstate.py
@@ -11,7 +11,7 @@ def PrepareState(state):
 
 def PrepareRho(state):
     basic_rho = PrepareState(state).unsqueeze(0)
-    return basic_rho.T @ basic_rho  # out-produt
+    return basic_rho.T @ basic_rho.conj()  # out-produt
 
 
 
-- 
2.43.0


From 062e1f0300d0cce3dd5e3dd030ff0ac43f172653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 14/33] fix: legacy Circuit.rxx/ryy/rzz took second qubit 0 for
 a missing argument

rxx(2, 0, phi) rotated qubits 2 and 3.
---
 deepquantum/gates/qgate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 2690710..6c4f084 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -263,7 +263,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
@@ -283,7 +283,7 @@ class Circuit(object):
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
 
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
@@ -304,7 +304,7 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(target_qubit02, int), \
             "target qubit is not integer"
-        if not target_qubit02:
+        if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
         assert target_qubit01 <= self.n_qubits
         assert target_qubit02 <= self.n_qubits
-- 
2.43.0


From fe2eda997223fc4059deb58875cbd041a99ca4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 15/33] fix: QuanConv2D walked past the last full patch

With stride != kernel_size, or a size the stride does not divide, forward
raised IndexError on the truncated border patches.
---
 deepquantum/nn/modules/quanv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deepquantum/nn/modules/quanv.py b/deepquantum/nn/modules/quanv.py
index f3a3014..15c2923 100644
--- a/deepquantum/nn/modules/quanv.py
+++ b/deepquantum/nn/modules/quanv.py
@@ -90,8 +90,8 @@ class QuanConv2D(nn.Module):
 
         out = torch.zeros((batch, out_channel, len_x_out, len_y_out))
         for batch_i in range(batch):
-            for j in range(0, len_x_in, self.stride):
-                for k in range(0, len_y_in, self.stride):
+            for j in range(0, len_x_in - self.kernel_size + 1, self.stride):
+                for k in range(0, len_y_in - self.kernel_size + 1, self.stride):
 
                     x = input[batch_i, 0, j:j+self.kernel_size, k:k+self.kernel_size].reshape(-1) #[batch,channel,x,y]
                     # print("x::", x, j, j+self.kernel_size, k, k+self.kernel_size)
-- 
2.43.0


From 24c15553198deaeca24d335ace213faba6ab0adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 16/33] fix: SWAP accepted equal or negative wires and expanded
 to a wrong matrix

SWAP on [i,i] gave a non-unitary matrix; every other two-qubit gate
raises ValueError.
---
 deepquantum/gates/qoperator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 5986b39..1dc437e 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -1773,6 +1773,10 @@ class SWAP(Operation):
         if self.nqubits != -1 and self.wires != -1:
             qbit1 = self.wires[0]
             qbit2 = self.wires[1]
+            if max(qbit1,qbit2) > self.nqubits - 1 or min(qbit1,qbit2) < 0:
+                raise ValueError("qbit index must between 0~N-1")
+            if qbit1 == qbit2:
+                raise ValueError("qbit1 cannot be equal to qbit2")
             
             zero_zero = torch.tensor( [[1,0],[0,0]] ) + 0j
             one_one = torch.tensor( [[0,0],[0,1]] ) + 0j
-- 
2.43.0


From 46cdc088d62c5fdb4b8fa8a58a6bc9ad30b52e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 17/33] fix: gram_encoding formed x.T@x, which is no Gram
 matrix for complex x

For [[1j,0]] the result had trace -1.
---
 deepquantum/embeddings/qembedding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deepquantum/embeddings/qembedding.py b/deepquantum/embeddings/qembedding.py
index 6bbc076..cd28b9c 100644
--- a/deepquantum/embeddings/qembedding.py
+++ b/deepquantum/embeddings/qembedding.py
@@ -47,7 +47,7 @@ def gram_encoding(x):
     perform L2 regularization on x, x为complex
     可以将n’×n’的Gram半正定矩阵转换为n’×n’的量子态密度矩阵
     """
-    x = x.T@x 
+    x = dag(x)@x 
     
     with torch.no_grad():
         # x = x.squeeze( )
-- 
2.43.0


From 83e06b5c890000c6c61cd7aa3b9222dd01d914b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:21 +0000
Subject: [PATCH 18/33] fix: Rho2MPS and MatrixProduct* rejected transposed
 (non-contiguous) input

---
 deepquantum/gates/qtensornetwork.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index f0fd5e7..ff30396 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -57,7 +57,7 @@ def MatrixProductState(psi:torch.Tensor, N:int)->torch.Tensor:
     if psi.shape[0] != 1 or psi.shape[1] != 2**N:
         raise ValueError('StateVec2MPS:input shape must be 1 ROW 2^N COLUMN')
     
-    MPS = psi.view([2]*N)
+    MPS = psi.reshape([2]*N)
     return MPS
 
 
@@ -195,7 +195,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
     if Rho.shape[0] != 2**N or Rho.shape[1] != 2**N:
         raise ValueError('Rho2MPS : dimension of rho must be [2^N, 2^N]')
     MPS_lst = []
-    r_tensor = Rho.view(1,-1)
+    r_tensor = Rho.reshape(1,-1)
     for i in range(N):
         #密度矩阵的reshape过程比态矢复杂得多
         r_tensor = torch.cat(torch.chunk(r_tensor, chunks=2, dim=1),dim=0)#先竖着切一刀，按照行堆叠
@@ -276,7 +276,7 @@ def MatrixProductDensityOperator(rho:torch.Tensor, N:int)->torch.Tensor:
         raise ValueError('MPDO: rho must be matrix(rank-2 tensor)')
     if rho.shape[0] != 2**N or rho.shape[1] != 2**N:
         raise ValueError('MPDO: dimension of rho must be [2^N, 2^N]')
-    rho_tensor = rho.view([2]*2*N)
+    rho_tensor = rho.reshape([2]*2*N)
     assert len(rho_tensor.shape) == 2*N
     return rho_tensor
 
-- 
2.43.0


From fee02201899159ff6a92521ec9a39e254346f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 19/33] fix: parameter_shift differentiated at stale parameters
 and overwrote the live ones

It shifted around the values recorded when the gate was added, and wrote
them back, undoing any params_update; trainable parameters failed in
deepcopy.
---
 deepquantum/gates/qcircuit.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 6dd59ae..f8b03b3 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -286,14 +286,16 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            #以门当前的参数为准（cir_params只记录add时的参数）
+            p0 = gate.params
+            p = p0.detach() + torch.tensor(0.0)
             if len(p.shape) == 0:
                 #只有单个参数
                 self.cir.gate[idx].params_update(p + 0.5*torch.pi)
                 e1 = self.cir.cir_expectation(self.init_state, self.M)
                 self.cir.gate[idx].params_update(p - 0.5*torch.pi)
                 e2 = self.cir.cir_expectation(self.init_state, self.M)
-                self.cir.gate[idx].params_update(p) #最后别忘了把参数恢复
+                self.cir.gate[idx].params_update(p0) #最后别忘了把参数恢复
                 grad_lst.append( 0.5*(e1 - e2) )
             
             elif len(p.shape) == 1:
@@ -308,7 +310,7 @@ class parameter_shift(object):
                     e2 = self.cir.cir_expectation(self.init_state, self.M)
                     
                     p[i] = p[i] + 0.5*torch.pi
-                    self.cir.gate[idx].params_update(p)
+                    self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
                     grad_lst.append( 0.5*(e1 - e2) )
             else:
@@ -385,7 +387,9 @@ class parameter_shift(object):
                 #首先判断该gate是否有参数，没参数直接跳过
                 continue
                 
-            p = copy.deepcopy( self.cir.cir_params[idx] )
+            #以门当前的参数为准（cir_params只记录add时的参数）
+            p0 = gate.params
+            p = p0.detach() + torch.tensor(0.0)
             if len(p.shape) == 0:
                 #只有单个参数
                 p = p - torch.pi
@@ -403,8 +407,7 @@ class parameter_shift(object):
                 temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
                 temp = -1.0*temp.real
                 
-                p = p + torch.pi
-                self.cir.gate[idx].params_update(p)
+                self.cir.gate[idx].params_update(p0)
                 
                 grad_lst.append(temp)
                 
@@ -427,7 +430,7 @@ class parameter_shift(object):
                     temp = -1.0*temp.real
                     #本来取虚部变成取负实部，相当于修正了-1j
                     p[i] = p[i] + torch.pi
-                    self.cir.gate[idx].params_update(p)
+                    self.cir.gate[idx].params_update(p0)
                     #最后别忘了把参数恢复
                     
                     grad_lst.append( temp )
-- 
2.43.0


From 6c5fa0a9f7726c723173d27845d14c57e484457a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 20/33] fix: cal_params_grad used the two-term shift rule for
 cu3

A controlled rotation has two frequencies, for which two shifts of pi/2 do
not give the derivative.
---
 deepquantum/gates/qcircuit.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index f8b03b3..1f34548 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -277,6 +277,12 @@ class parameter_shift(object):
         self.M = M
     
     
+    @staticmethod
+    def _four_term_rule():
+        d1 = (2**0.5 + 1)/(4*2**0.5)
+        d2 = (2**0.5 - 1)/(4*2**0.5)
+        return [(0.5*torch.pi,d1),(-0.5*torch.pi,-d1),(1.5*torch.pi,-d2),(-1.5*torch.pi,d2)]
+    
     
     def cal_params_grad(self):
         grad_lst = []
@@ -289,7 +295,19 @@ class parameter_shift(object):
             #以门当前的参数为准（cir_params只记录add时的参数）
             p0 = gate.params
             p = p0.detach() + torch.tensor(0.0)
-            if len(p.shape) == 0:
+            if gate.label == 'cu3':
+                #受控旋转含有1/2和1两种频率，需要四项的parameter shift
+                for i in range(len(p)):
+                    g = 0.0
+                    for shift,coef in self._four_term_rule():
+                        q = p.clone()
+                        q[i] = q[i] + shift
+                        gate.params_update(q)
+                        g = g + coef*self.cir.cir_expectation(self.init_state, self.M)
+                    gate.params_update(p0)
+                    grad_lst.append( g )
+            
+            elif len(p.shape) == 0:
                 #只有单个参数
                 self.cir.gate[idx].params_update(p + 0.5*torch.pi)
                 e1 = self.cir.cir_expectation(self.init_state, self.M)
-- 
2.43.0


From 84b0a6c959aacf684bec636b453784af1baaa6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 21/33] fix: cal_params_grad2 gave wrong gradients for u1,
 cphase and cu3

It assumed 2*dU/dp = -U(p-pi), which only holds for Pauli rotations.
---
 deepquantum/gates/qcircuit.py | 73 +++++++++++++++--------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 1f34548..acaaf9f 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -394,6 +394,18 @@ class parameter_shift(object):
                 
     
     
+    @staticmethod
+    def _derivative_rule(gate):
+        '''
+        返回[(shift,coef),...]，使得 2*dU/dp = sum( coef*U(p+shift) )
+        '''
+        if gate.label in ('u1','cphase'):
+            return [(0.5*torch.pi,1.0),(-0.5*torch.pi,-1.0)]
+        if gate.label == 'cu3':
+            return [(torch.pi,0.5),(-torch.pi,-0.5)]
+        return [(-torch.pi,-1.0)] #泡利旋转
+    
+    
     def cal_params_grad2(self,save_dict):
         grad_lst = []
         num_gates = len(self.cir.gate)
@@ -408,49 +420,28 @@ class parameter_shift(object):
             #以门当前的参数为准（cir_params只记录add时的参数）
             p0 = gate.params
             p = p0.detach() + torch.tensor(0.0)
-            if len(p.shape) == 0:
-                #只有单个参数
-                p = p - torch.pi
-                self.cir.gate[idx].params_update(p)
-                
-                if idx == 0:
-                    MPS = copy.deepcopy( init_MPS )
-                    MPS = gate.TN_operation( MPS )
-                else:
-                    MPS = copy.deepcopy( save_dict[idx-1] )
-                    MPS = gate.TN_operation( MPS )
-                
-                psi1 = MPS2StateVec( MPS )
+            if len(p.shape) <= 1:
                 psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze()
-                temp = -1.0*temp.real
-                
-                self.cir.gate[idx].params_update(p0)
-                
-                grad_lst.append(temp)
-                
-            elif len(p.shape) == 1:
-                #参数是个一维张量
-                for i,each_p in enumerate(p):
-                    
-                    p[i] = p[i] - torch.pi
-                    self.cir.gate[idx].params_update(p)
-                    #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
-                    if idx == 0:
-                        MPS = copy.deepcopy( init_MPS )
-                        MPS = gate.TN_operation( MPS )
-                    else:
-                        MPS = copy.deepcopy( save_dict[idx-1] )
-                        MPS = gate.TN_operation( MPS ) #后面需要-1j修正
-                    psi1 = MPS2StateVec( MPS )
-                    psi2 = MPS2StateVec( save_dict[2*num_gates-idx-2] )
-                    temp = ( psi2.conj() @ psi1.view(-1,1) ).squeeze() 
-                    temp = -1.0*temp.real
-                    #本来取虚部变成取负实部，相当于修正了-1j
-                    p[i] = p[i] + torch.pi
-                    self.cir.gate[idx].params_update(p0)
+                for i in range(gate.num_params):
+                    temp = 0.0
+                    for shift,coef in self._derivative_rule(gate):
+                        q = p.clone()
+                        if len(p.shape) == 0:
+                            #只有单个参数
+                            q = q + shift
+                        else:
+                            #参数是个一维张量
+                            q[i] = q[i] + shift
+                        gate.params_update(q)
+                        #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
+                        if idx == 0:
+                            MPS = copy.deepcopy( init_MPS )
+                        else:
+                            MPS = copy.deepcopy( save_dict[idx-1] )
+                        psi1 = MPS2StateVec( gate.TN_operation( MPS ) )
+                        temp = temp + coef*( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
+                    gate.params_update(p0)
                     #最后别忘了把参数恢复
-                    
                     grad_lst.append( temp )
             else:
                 raise ValueError('cal_params_grad: error about params shape')
-- 
2.43.0


From 885cc7078c89bc04ccb3ee316374c7ae26aeae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:30 +0000
Subject: [PATCH 22/33] fix: every layer function of layers/qlayer.py raised

They called gate methods of the Circuit class without an instance and with
arguments those methods never had. Give them the gate matrices instead.
---
 deepquantum/layers/qlayer.py | 47 +++++++++++++++++++++++++++++++++++-
 1 file changed, 46 insertions(+), 1 deletion(-)

diff --git a/deepquantum/layers/qlayer.py b/deepquantum/layers/qlayer.py
index a33136c..ff27ea8 100644
--- a/deepquantum/layers/qlayer.py
+++ b/deepquantum/layers/qlayer.py
@@ -8,7 +8,52 @@ Created on Tue Oct 26 10:00:55 2021
 import torch
 # import math
 # from qutorch.qgate import rx, ry, rz, multi_kron, cnot, cz, IsUnitary, Hadamard, rxx, ryy, rzz
-from deepquantum.gates import Circuit as cir
+from deepquantum.gates import qoperator as op
+from deepquantum.gates.qmath import multi_kron
+
+
+class cir(object):
+    '''
+    本文件的layer都是返回矩阵的函数，这里把各个门的矩阵整理成统一的接口
+    '''
+    multi_kron = staticmethod(multi_kron)
+    
+    @staticmethod
+    def Hadamard():
+        return op.Hadamard().matrix
+    
+    @staticmethod
+    def rx(theta):
+        return op.rx(theta).matrix
+    
+    @staticmethod
+    def ry(theta):
+        return op.ry(theta).matrix
+    
+    @staticmethod
+    def rz(theta):
+        return op.rz(theta).matrix
+    
+    @staticmethod
+    def rxx(theta):
+        return op.rxx(theta).matrix
+    
+    @staticmethod
+    def ryy(theta):
+        return op.ryy(theta).matrix
+    
+    @staticmethod
+    def rzz(theta):
+        return op.rzz(theta).matrix
+    
+    @staticmethod
+    def cnot(N, control, target):
+        return op.cnot(N, [control, target]).U_expand()
+    
+    @staticmethod
+    def cz(N, control, target):
+        return op.cz(N, [control, target]).U_expand()
+
 
 def XYZLayer(N, parameter_lst):
     if N < 1:
-- 
2.43.0


From 5a2fcb0b7daeb1fc6ce8d9943e9b2e6d3540437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 23/33] fix: legacy Circuit.cnot/cz accepted a negative control
 qubit

---
 deepquantum/gates/qgate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index 6c4f084..e7c13de 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -208,7 +208,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
         self._add_gate('cnot', [control_qubit, target_qubit],None)
@@ -243,7 +244,8 @@ class Circuit(object):
             "target qubit is not integer"
         assert isinstance(control_qubit, int), \
             "control qubit is not integer"
-        assert control_qubit <= self.n_qubits
+        assert 0 <= control_qubit < self.n_qubits, \
+            "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
 
-- 
2.43.0


From 99e374ca4e88320650134668d7c89d0cece45e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:52 +0000
Subject: [PATCH 24/33] fix: layers reject an update with a wrong number of
 parameters

---
 deepquantum/layers/qlayers.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 958da86..8625fcc 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -179,6 +179,8 @@ class XYZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if 3*len(self.wires) != len(params_lst):
+            raise ValueError("XYZLayer: number of parameters not match")
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
         self.params = params_lst
@@ -254,6 +256,8 @@ class ZYXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if 3*len(self.wires) != len(params_lst):
+            raise ValueError("ZYXLayer: number of parameters not match")
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
         self.params = params_lst
@@ -362,6 +366,8 @@ class YZYLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if 3*len(self.wires) != len(params_lst):
+            raise ValueError("YZYLayer: number of parameters not match")
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
         self.params = params_lst
@@ -444,6 +450,8 @@ class XZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if 3*len(self.wires) != len(params_lst):
+            raise ValueError("XZXLayer: number of parameters not match")
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
         self.params = params_lst
@@ -515,6 +523,8 @@ class XZLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if 2*len(self.wires) != len(params_lst):
+            raise ValueError("XZLayer: number of parameters not match")
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
         self.params = params_lst
@@ -591,6 +601,8 @@ class ZXLayer(SingleGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if 2*len(self.wires) != len(params_lst):
+            raise ValueError("ZXLayer: number of parameters not match")
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
         self.params = params_lst
@@ -1027,6 +1039,8 @@ class BasicEntangleLayer(TwoQbitGateLayer):
         return info
     
     def params_update(self,params_lst):
+        if 3*len(self.wires)*self.repeat != len(params_lst):
+            raise ValueError("BasicEntangleLayer: number of parameters not match")
         if type(params_lst) == type([1]):
             params_lst = torch.tensor(params_lst)
         self.num_params = len(params_lst)
-- 
2.43.0


From 922339f260315f64b8c0bee6fae26b9967f4d21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:52 +0000
Subject: [PATCH 25/33] fix: SVD of tensors with entries near underflow

---
 deepquantum/gates/qtensornetwork.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index ff30396..667696c 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -12,6 +12,15 @@ import time
 
 from typing import List
 
+def _SVD(tensor:torch.Tensor):
+    '''
+    单精度SVD遇到接近下溢(约1e-30以下)的非零元素时会返回nan，或者不收敛而报错
+    所以先把远小于舍入误差的元素置零，不影响结果，也不影响梯度
+    '''
+    size = torch.abs(tensor.detach())
+    tiny = torch.where(size < 1e-20*size.max(), tensor.detach(), torch.zeros_like(tensor))
+    return torch.svd( tensor - tiny )
+
 def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
     #t1 = time.time()
     #输入合法性检测：输入的态矢必须是1行2^N列的张量
@@ -32,7 +41,7 @@ def StateVec2MPS(psi:torch.Tensor, N:int, d:int=2)->List[torch.Tensor]:
             rst_lst.append(c_tensor.view(2,-1,c_tensor.shape[1]))
             continue
         
-        U,S,V = torch.svd( c_tensor )
+        U,S,V = _SVD( c_tensor )
         V_d = V.permute(1,0).conj()
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
         #print(D)
@@ -95,7 +104,7 @@ def TensorDecompAfterTwoQbitGate(tensor:torch.Tensor):
     block2 = torch.cat((tensor[1,0],tensor[1,1]),dim=1)
     tensor = torch.cat((block1,block2),dim=0)
     
-    U,S,V = torch.svd( tensor )
+    U,S,V = _SVD( tensor )
     V_d = V.permute(1,0).conj()
     D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
     #print('D: ',D)
@@ -134,7 +143,7 @@ def TensorDecompAfterThreeQbitGate(tensor:torch.Tensor):
             blks = torch.chunk(tensor, chunks=2, dim=1)
             tensor = torch.cat((blks[0], blks[1]), dim=0)
         if i != 2:
-            U,S,V = torch.svd( tensor )
+            U,S,V = _SVD( tensor )
             V_d = V.permute(1,0).conj()
             D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
             S = torch.diag(S) + 0j
@@ -224,7 +233,7 @@ def Rho2MPS(Rho:torch.Tensor,N:int)->List[torch.Tensor]:
         NOTE:已知矩阵A做SVD分解得到U、S、V，若对10*A做SVD分解，将得到U,10*S,V
         所以，Rho的MPS和10*Rho的MPS是完全相同的
         '''
-        U,S,V = torch.svd(r_tensor)
+        U,S,V = _SVD(r_tensor)
         #print(torch.max(S))
         V = V.permute(1,0).conj() #dag(V)
         D = len( (S[torch.abs(S)>1e-8]).view(-1) ) #D：bond dimension
-- 
2.43.0


From 2e5d58d79a85b727a77396c3e29e14ddc9700b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 26/33] fix: save_mid_MPS raised for parameters that require
 gradients

---
 deepquantum/gates/qcircuit.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index acaaf9f..24867b4 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -358,7 +358,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != num_gates-1 and cir.gate[idx+1].num_params != 0:
-                    save_dict[idx] = copy.deepcopy(MPS)
+                    save_dict[idx] = [t.clone() for t in MPS]
             else:
                 raise ValueError(str(oper.info()['label'])
                                  +'-TN_evolution:some part of circuit do not support Tensor Network')
@@ -369,7 +369,7 @@ class parameter_shift(object):
         MPS = M_oper.TN_operation(MPS)
         #暂时只支持单比特PauliX、PauliY、PauliZ这些简单情况
         if cir.gate[num_gates-1].num_params != 0:
-            save_dict[num_gates-1] = copy.deepcopy(MPS)
+            save_dict[num_gates-1] = [t.clone() for t in MPS]
             
         
         
@@ -380,7 +380,7 @@ class parameter_shift(object):
                 MPS = oper.TN_operation(MPS)
                 #如果这个gate or layer的下一个门操作含有参数，那么演化到此门为止的态就要保存
                 if idx != 0 and cir.gate[idx-1].num_params != 0:
-                    save_dict[2*num_gates-idx-1] = copy.deepcopy(MPS)
+                    save_dict[2*num_gates-idx-1] = [t.clone() for t in MPS]
                     
             else:
                 raise ValueError(str(oper.info()['label'])
@@ -433,11 +433,11 @@ class parameter_shift(object):
                             #参数是个一维张量
                             q[i] = q[i] + shift
                         gate.params_update(q)
-                        #注意TN_operation是会改变输入(MPS)本身的，所以要用deepcopy
+                        #注意TN_operation是会改变输入(MPS)本身的，所以要复制一份(deepcopy不支持带梯度的张量)
                         if idx == 0:
-                            MPS = copy.deepcopy( init_MPS )
+                            MPS = [t.clone() for t in init_MPS]
                         else:
-                            MPS = copy.deepcopy( save_dict[idx-1] )
+                            MPS = [t.clone() for t in save_dict[idx-1]]
                         psi1 = MPS2StateVec( gate.TN_operation( MPS ) )
                         temp = temp + coef*( psi2.conj() @ psi1.view(-1,1) ).squeeze().real
                     gate.params_update(p0)
-- 
2.43.0


From 949ef28bfa389f6acd5638b79b98c4f84d56b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:30 +0000
Subject: [PATCH 27/33] fix: tensor-network forms and layers computed with
 negative or repeated wires

---
 deepquantum/embeddings/qembedding.py |  1 +
 deepquantum/gates/qoperator.py       | 30 ++++++++++++++++++++++++++++
 deepquantum/layers/qlayers.py        | 11 ++++++++++
 3 files changed, 42 insertions(+)

diff --git a/deepquantum/embeddings/qembedding.py b/deepquantum/embeddings/qembedding.py
index cd28b9c..d7e2b0c 100644
--- a/deepquantum/embeddings/qembedding.py
+++ b/deepquantum/embeddings/qembedding.py
@@ -66,6 +66,7 @@ class PauliEncoding(SingleGateLayer):
         
         if N < len(input_lst):
             raise ValueError("number of inputs must be less than number of qubits")
+        self.wires_check(N, wires, "PauliEncoding")
         self.nqubits = N
         self.input_lst = input_lst
         self.pauli = pauli
diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 1dc437e..86662b0 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -95,12 +95,25 @@ class Operation(Operator):
         #multi_kron(lst2) - multi_kron(lst3)对应不做操作的哪些情况
         return multi_kron(lst2) - multi_kron(lst3) + multi_kron(lst1) + 0j
 
+    @staticmethod
+    def wires_check(N,wires,label):
+        '''
+        检查wires的合法性：每个索引号都在0~N-1之间，且互不相同
+        TN_operation、TN_contract和各个layer不经过门的U_expand，所以要单独检查
+        '''
+        for each in wires:
+            if each < 0 or each > N - 1:
+                raise ValueError(label+": wires must between 0~N-1")
+        if len(set(wires)) != len(wires):
+            raise ValueError(label+": wires must be different from each other")
+    
     def _symmetric_TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         '''
         供rxx、ryy、rzz使用：这几个门对两个比特对称，所以self.matrix与wires的先后顺序无关
         '''
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError(self.label+" gate input error! cannot TN_operation")
+        self.wires_check(self.nqubits, self.wires, self.label)
         upqbit = min(self.wires)
         downqbit = max(self.wires)
         
@@ -141,6 +154,7 @@ class SingleGateOperation(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("SingleGateOperation input error! cannot TN_operation")
+        self.wires_check(self.nqubits, [self.wires], "SingleGateOperation")
         # print(self.wires)
         # temp = MPS[self.wires]
         # temp =  torch.squeeze(self.matrix @ temp.permute(1,2,0).unsqueeze(-1),dim=3)
@@ -153,6 +167,7 @@ class SingleGateOperation(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("SingleGateOperation input error! cannot TN_contract")
+        self.wires_check(self.nqubits, [self.wires], "SingleGateOperation")
         if batch_mod==False:
             permute_shape = list( range(self.nqubits) )
             permute_shape[self.wires] = self.nqubits - 1
@@ -676,6 +691,7 @@ class rxx(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -816,6 +832,7 @@ class ryy(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -954,6 +971,7 @@ class rzz(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("rxx gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1081,6 +1099,7 @@ class cnot(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cnot gate input error! cannot TN_operation")
+        self.wires_check(self.nqubits, self.wires, self.label)
         # control = self.wires[0]
         # target = self.wires[1]
         upqbit = min(self.wires)
@@ -1177,6 +1196,7 @@ class cnot(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cnot gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1300,6 +1320,7 @@ class cz(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation:cz gate input error! cannot expand")
+        self.wires_check(self.nqubits, self.wires, self.label)
         if len(self.wires) != 2:
             raise ValueError("TN_operation:cz gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1329,6 +1350,7 @@ class cz(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cz gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1458,6 +1480,7 @@ class cphase(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation:cz gate input error! cannot expand")
+        self.wires_check(self.nqubits, self.wires, self.label)
         if len(self.wires) != 2:
             raise ValueError("TN_operation:cz gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1487,6 +1510,7 @@ class cphase(Operation):
     def TN_contract(self,MPS:torch.Tensor, batch_mod:bool=False):
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cphase gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1615,6 +1639,7 @@ class cu3(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation: cu3 gate input error! cannot expand")
+        self.wires_check(self.nqubits, self.wires, self.label)
         if len(self.wires) != 2:
             raise ValueError("TN_operation: cu3 gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1645,6 +1670,7 @@ class cu3(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("cu3 gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1810,6 +1836,7 @@ class SWAP(Operation):
         '''
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("TN_operation: SWAP gate input error! cannot expand")
+        self.wires_check(self.nqubits, self.wires, self.label)
         if len(self.wires) != 2:
             raise ValueError("TN_operation: SWAP gate must be applied on 2 qbits")
         upqbit = min(self.wires)
@@ -1845,6 +1872,7 @@ class SWAP(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("SWAP gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit = self.wires[0]
         tqbit = self.wires[1]
         assert cqbit != tqbit
@@ -1965,6 +1993,7 @@ class toffoli(Operation):
     def TN_operation(self,MPS:List[torch.Tensor])->List[torch.Tensor]:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("toffoli gate input error! cannot TN_operation")
+        self.wires_check(self.nqubits, self.wires, self.label)
         sw = sorted(self.wires)
         upqbit = sw[0]
         midqbit = sw[1]
@@ -2038,6 +2067,7 @@ class toffoli(Operation):
     def TN_contract(self, MPS:torch.Tensor, batch_mod:bool=False)->torch.Tensor:
         if self.nqubits == -1 or self.wires == -1:
             raise ValueError("toffoli gate input error! cannot TN_contract")
+        self.wires_check(self.nqubits, self.wires, self.label)
         cqbit1 = self.wires[0]
         cqbit2 = self.wires[1]
         tqbit = self.wires[2]
diff --git a/deepquantum/layers/qlayers.py b/deepquantum/layers/qlayers.py
index 8625fcc..7838bc1 100644
--- a/deepquantum/layers/qlayers.py
+++ b/deepquantum/layers/qlayers.py
@@ -118,6 +118,7 @@ class XYZLayer(SingleGateLayer):
             raise ValueError("XYZLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("XYZLayer: number of wires must less than N")
+        self.wires_check(N, wires, "XYZLayer")
         self.label = "XYZLayer"
         
         self.nqubits = N
@@ -195,6 +196,7 @@ class ZYXLayer(SingleGateLayer):
             raise ValueError("ZYXLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("ZYXLayer: number of wires must less than N")
+        self.wires_check(N, wires, "ZYXLayer")
         self.label = "ZYXLayer"
         
         self.nqubits = N
@@ -275,6 +277,7 @@ class YZYLayer(SingleGateLayer):
             raise ValueError("YZYLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("YZYLayer: number of wires must less than N")
+        self.wires_check(N, wires, "YZYLayer")
         self.label = "YZYLayer"
         
         self.nqubits = N
@@ -390,6 +393,7 @@ class XZXLayer(SingleGateLayer):
             raise ValueError("XZXLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("XZXLayer: number of wires must less than N")
+        self.wires_check(N, wires, "XZXLayer")
         self.label = "XZXLayer"
         
         self.nqubits = N
@@ -473,6 +477,7 @@ class XZLayer(SingleGateLayer):
             raise ValueError("XZLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("XZLayer: number of wires must less than N")
+        self.wires_check(N, wires, "XZLayer")
         self.label = "XZLayer"
         
         self.nqubits = N
@@ -549,6 +554,7 @@ class ZXLayer(SingleGateLayer):
             raise ValueError("ZXLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("ZXLayer: number of wires must less than N")
+        self.wires_check(N, wires, "ZXLayer")
         self.label = "ZXLayer"
         
         self.nqubits = N
@@ -619,6 +625,7 @@ class HLayer(SingleGateLayer):
     def __init__(self,N,wires):
         if len(wires) > N:
             raise ValueError("HadamardLayer: number of wires must less than N")
+        self.wires_check(N, wires, "HadamardLayer")
         
         self.label = "HadamardLayer"
         
@@ -667,6 +674,7 @@ class ring_of_cnot(TwoQbitGateLayer):
         
         if len(wires) > N:
             raise ValueError("ring_of_cnotLayer: number of wires must <= N")
+        self.wires_check(N, wires, "ring_of_cnotLayer")
         if len(wires) < 2:
             raise ValueError("ring_of_cnotLayer: number of wires must >= 2")
         self.label = "ring_of_cnot_Layer"
@@ -821,6 +829,7 @@ class ring_of_cnot_dagger(TwoQbitGateLayer):
         
         if len(wires) > N:
             raise ValueError("ring_of_cnot_dagger: number of wires must <= N")
+        self.wires_check(N, wires, "ring_of_cnot_dagger")
         if len(wires) < 2:
             raise ValueError("ring_of_cnot_dagger: number of wires must >= 2")
         self.label = "ring_of_cnot_dagger"
@@ -927,6 +936,7 @@ class ring_of_cnot2(TwoQbitGateLayer):
         
         if len(wires) > N:
             raise ValueError("ring_of_cnot2Layer: number of wires must <= N")
+        self.wires_check(N, wires, "ring_of_cnot2Layer")
         if len(wires) < 2:
             raise ValueError("ring_of_cnot2Layer: number of wires must >= 2")
         self.label = "ring_of_cnot2_Layer"
@@ -1002,6 +1012,7 @@ class BasicEntangleLayer(TwoQbitGateLayer):
             raise ValueError("BasicEntangleLayer: number of parameters not match")
         if len(wires) > N:
             raise ValueError("BasicEntangleLayer: number of wires must <= N")
+        self.wires_check(N, wires, "BasicEntangleLayer")
         if len(wires) < 2:
             raise ValueError("BasicEntangleLayer: number of wires must >= 2")
         if repeat < 1:
-- 
2.43.0


From beb2a8736d59599659ac632427270c38ce351cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:37 +0000
Subject: [PATCH 28/33] fix: legacy two-qubit gates check their qubits before
 recording the gate

cnot, cz, rxx and rzz added the gate to gate_list and only then found that
the two qubits are equal (rxx, ryy and rzz also that one is outside the
circuit), so a rejected call left an entry in gate_list with no unitary.
---
 deepquantum/gates/qgate.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index e7c13de..dc6f7da 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -212,6 +212,8 @@ class Circuit(object):
             "control qubit is not available"
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
+        assert control_qubit != target_qubit, \
+            "control cannot be equal to target"
         self._add_gate('cnot', [control_qubit, target_qubit],None)
         self._add_u(self.two_qubit_control_gate(self._x_gate(), self.n_qubits, control_qubit, target_qubit))
 
@@ -249,6 +251,8 @@ class Circuit(object):
         assert 0 <= target_qubit < self.n_qubits, \
             "target qubit is not available"
 
+        assert control_qubit != target_qubit, \
+            "control cannot be equal to target"
         self._add_gate('cz', [control_qubit, target_qubit],None)
         self._add_u(self.two_qubit_control_gate(self._z_gate(), self.n_qubits, control_qubit, target_qubit))
 
@@ -267,8 +271,12 @@ class Circuit(object):
             "target qubit is not integer"
         if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits, \
+            "target qubit is not available"
+        assert 0 <= target_qubit02 < self.n_qubits, \
+            "target qubit is not available"
+        assert target_qubit01 != target_qubit02, \
+            "target qubit should not be the same"
 
         # self._add_gate('rxx', target_qubit01, phi)
         # self._add_gate('rxx', target_qubit02, phi)
@@ -287,8 +295,10 @@ class Circuit(object):
 
         if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits, \
+            "target qubit is not available"
+        assert 0 <= target_qubit02 < self.n_qubits, \
+            "target qubit is not available"
         assert target_qubit01 != target_qubit02, \
             "target qubit should not be the same"
 
@@ -308,8 +318,12 @@ class Circuit(object):
             "target qubit is not integer"
         if target_qubit02 is None:
             target_qubit02 = target_qubit01 + 1
-        assert target_qubit01 <= self.n_qubits
-        assert target_qubit02 <= self.n_qubits
+        assert 0 <= target_qubit01 < self.n_qubits, \
+            "target qubit is not available"
+        assert 0 <= target_qubit02 < self.n_qubits, \
+            "target qubit is not available"
+        assert target_qubit01 != target_qubit02, \
+            "target qubit should not be the same"
 
         # self._add_gate('rzz', target_qubit01, phi)
         # self._add_gate('rzz', target_qubit02, phi)
-- 
2.43.0


From 22ca01bd97294ea51436027be01ad3b3f460b541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:36 +0000
Subject: [PATCH 29/33] fix: gates accepted or half applied a wrong number of
 parameters

---
 deepquantum/gates/qoperator.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/deepquantum/gates/qoperator.py b/deepquantum/gates/qoperator.py
index 86662b0..c91fa3c 100644
--- a/deepquantum/gates/qoperator.py
+++ b/deepquantum/gates/qoperator.py
@@ -29,6 +29,15 @@ class Operator(object):
 
 class Operation(Operator):
     
+    @staticmethod
+    def params_check(params,num,label):
+        '''
+        参数个数必须等于门的参数个数，否则报错（此时门保持不变）
+        '''
+        n = params.numel() if num == 1 else len(params)
+        if n != num:
+            raise ValueError(label + ": number of parameters not match")
+    
     @staticmethod
     def two_qubit_control_gate(U,N,control,target):
         '''
@@ -383,6 +392,7 @@ class rx(SingleGateOperation):
         
         
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "rx")
         self.nqubits = N
         self.wires = wires
         self.params = theta
@@ -411,6 +421,7 @@ class rx(SingleGateOperation):
     
     def params_update(self,params):
         params = params + torch.tensor(0.0)
+        self.params_check(params, 1, "rx")
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliX().matrix + 0j
@@ -435,6 +446,7 @@ class ry(SingleGateOperation):
         self.self_inverse = False
         
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "ry")
         self.nqubits = N
         self.wires = wires
         self.params = theta
@@ -462,6 +474,7 @@ class ry(SingleGateOperation):
     
     def params_update(self,params):
         params = params + torch.tensor(0.0)
+        self.params_check(params, 1, "ry")
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliY().matrix + 0j
@@ -486,6 +499,7 @@ class rz(SingleGateOperation):
         self.self_inverse = False
         
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "rz")
         self.nqubits = N
         self.wires = wires
         self.params = theta
@@ -512,6 +526,7 @@ class rz(SingleGateOperation):
     
     def params_update(self,params):
         params = params + torch.tensor(0.0)
+        self.params_check(params, 1, "rz")
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(2,2) \
             - 1j*torch.sin(self.params/2.0)*PauliZ().matrix + 0j
@@ -536,6 +551,7 @@ class u1(SingleGateOperation):
         self.nqubits = N
         self.wires = wires
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "u1")
         self.params = theta
         
         # exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -567,6 +583,7 @@ class u1(SingleGateOperation):
     
     def params_update(self,theta):
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "u1")
         self.params = theta
         
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
@@ -591,6 +608,7 @@ class u3(SingleGateOperation):
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        self.params_check(theta_lst, 3, "u3")
         self.nqubits = N
         self.wires = wires
         self.params = theta_lst
@@ -629,6 +647,7 @@ class u3(SingleGateOperation):
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        self.params_check(theta_lst, 3, "u3")
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -659,6 +678,7 @@ class rxx(Operation):
         self.self_inverse = False
     
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "rxx")
         self.nqubits = N
         self.wires = wires
         self.params = theta
@@ -770,6 +790,7 @@ class rxx(Operation):
     
     def params_update(self,params):
         params = params + torch.tensor(0.0)
+        self.params_check(params, 1, "rxx")
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliX().matrix,PauliX().matrix) + 0j
@@ -798,6 +819,7 @@ class ryy(Operation):
         self.self_inverse = False
         
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "ryy")
         self.nqubits = N
         self.wires = wires
         self.params = theta
@@ -911,6 +933,7 @@ class ryy(Operation):
     
     def params_update(self,params):
         params = params + torch.tensor(0.0)
+        self.params_check(params, 1, "ryy")
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliY().matrix,PauliY().matrix) + 0j
@@ -939,6 +962,7 @@ class rzz(Operation):
         self.self_inverse = False
         
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "rzz")
         self.nqubits = N
         self.wires = wires
         self.params = theta
@@ -1050,6 +1074,7 @@ class rzz(Operation):
     
     def params_update(self,params):
         params = params + torch.tensor(0.0)
+        self.params_check(params, 1, "rzz")
         self.params = params
         self.matrix = torch.cos(self.params/2.0)*torch.eye(4,4) \
             - 1j*torch.sin(self.params/2.0)*torch.kron(PauliZ().matrix,PauliZ().matrix) + 0j
@@ -1449,6 +1474,7 @@ class cphase(Operation):
         self.self_inverse = False
         
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "cphase")
         self.nqubits = N
         self.wires = wires
         self.params = theta
@@ -1590,6 +1616,7 @@ class cphase(Operation):
     
     def params_update(self,theta):
         theta = theta + torch.tensor(0.0)
+        self.params_check(theta, 1, "cphase")
         self.params = theta
         exp_itheta = torch.cos(theta) + 1j * torch.sin(theta)
         mt = torch.zeros(4,4)
@@ -1612,6 +1639,7 @@ class cu3(Operation):
         
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        self.params_check(theta_lst, 3, "cu3")
         self.params = theta_lst
         
         theta = theta_lst[0]
@@ -1750,6 +1778,7 @@ class cu3(Operation):
     def params_update(self,theta_lst):
         if type(theta_lst) == type([1]):
             theta_lst = torch.tensor(theta_lst)
+        self.params_check(theta_lst, 3, "cu3")
         self.params = theta_lst
         
         theta = theta_lst[0]
-- 
2.43.0


From f9aa9f286e1f14dec6b63700e5d00fe531c0cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:36 +0000
Subject: [PATCH 30/33] fix: a failing parameter-shift gradient left the
 circuit at shifted parameters

---
 deepquantum/gates/qcircuit.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 24867b4..90aeee5 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -16,6 +16,7 @@ from deepquantum.gates.qtensornetwork import StateVec2MPS,MPS2StateVec
 
 from typing import List
 import copy
+import functools
 import time
 #import multiprocessing as mp
 
@@ -267,6 +268,22 @@ class Circuit(object):
 
 
 
+def restore_params_on_error(method):
+    '''
+    求导过程中一旦报错，把线路中所有门、层的参数恢复成求导之前的值
+    '''
+    @functools.wraps(method)
+    def wrapper(self,*args,**kwargs):
+        params = [(gate,gate.params) for gate in self.cir.gate if gate.num_params != 0]
+        try:
+            return method(self,*args,**kwargs)
+        except BaseException:
+            for gate,p in params:
+                gate.params_update(p)
+            raise
+    return wrapper
+
+
 class parameter_shift(object):
     '''
     线路中设计的门、层必须有更新参数的method：def params_update(self,theta_lst)
@@ -284,6 +301,7 @@ class parameter_shift(object):
         return [(0.5*torch.pi,d1),(-0.5*torch.pi,-d1),(1.5*torch.pi,-d2),(-1.5*torch.pi,d2)]
     
     
+    @restore_params_on_error
     def cal_params_grad(self):
         grad_lst = []
         for idx,gate in enumerate( self.cir.gate ):
@@ -406,6 +424,7 @@ class parameter_shift(object):
         return [(-torch.pi,-1.0)] #泡利旋转
     
     
+    @restore_params_on_error
     def cal_params_grad2(self,save_dict):
         grad_lst = []
         num_gates = len(self.cir.gate)
-- 
2.43.0


From a64d640751aa3f427b116581bf2e77f3fbbcb135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:06 +0000
Subject: [PATCH 31/33] fix: Circuit.add kept an object it could not add

---
 deepquantum/gates/qcircuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deepquantum/gates/qcircuit.py b/deepquantum/gates/qcircuit.py
index 90aeee5..7cd28a4 100644
--- a/deepquantum/gates/qcircuit.py
+++ b/deepquantum/gates/qcircuit.py
@@ -41,6 +41,9 @@ class Circuit(object):
         return state_init
 
     def add(self, gate):
+        #不是门、层的对象在修改线路之前就报错
+        if gate.num_params != 0 and not hasattr(gate,'params'):
+            raise ValueError('Circuit.add: operation without params')
         self.gate.append(gate)
         if gate.num_params != 0:
             self.cir_num_params += gate.num_params
-- 
2.43.0


From 10ae222be17e201f3ff5dd3e1c1f9a7103e1d71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:20 +0000
Subject: [PATCH 32/33] fix: legacy circuit recorded gates whose matrix could
 not be formed

---
 deepquantum/gates/qgate.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/deepquantum/gates/qgate.py b/deepquantum/gates/qgate.py
index dc6f7da..5f5bd9c 100644
--- a/deepquantum/gates/qgate.py
+++ b/deepquantum/gates/qgate.py
@@ -1,8 +1,24 @@
+import functools
 import numpy as np
 import torch.nn as nn
 import torch
 import torch.nn.functional as F
 
+def undo_record_on_error(method):
+    """
+    A gate whose matrix cannot be formed (e.g. a parameter of wrong type or size) must not stay in gate_list.
+    """
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        n = len(self.gate_list)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            del self.gate_list[n:]
+            raise
+    return wrapper
+
+
 class Circuit(object):
     def __init__(self, N):
         
@@ -167,6 +183,7 @@ class Circuit(object):
         return self.multi_kron(lst2) - self.multi_kron(lst3) + self.multi_kron(lst1)
 
 #   实例调用部分可使用的函数 添加门、run线路
+    @undo_record_on_error
     def rx(self, target_qubit, phi):
         assert isinstance(target_qubit, int), \
             "target qubit is not integer"
@@ -179,6 +196,7 @@ class Circuit(object):
         else:
             self._add_u(self.gate_expand_1toN(self._rx(phi), self.n_qubits, target_qubit))
 
+    @undo_record_on_error
     def ry(self, target_qubit, phi):
         assert isinstance(target_qubit, int), \
             "target qubit is not integer"
@@ -191,6 +209,7 @@ class Circuit(object):
         else:
             self._add_u(self.gate_expand_1toN(self._ry(phi), self.n_qubits, target_qubit))
 
+    @undo_record_on_error
     def rz(self, target_qubit, phi):
         assert isinstance(target_qubit, int), \
             "target qubit is not integer"
@@ -264,6 +283,7 @@ class Circuit(object):
         self._add_gate('H', target_qubit, None)
         self._add_u(self.gate_expand_1toN(self._Hadamard(), self.n_qubits, target_qubit))
 
+    @undo_record_on_error
     def rxx(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
             "target qubit is not integer"
@@ -287,6 +307,7 @@ class Circuit(object):
         else:
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='rxx'))
 
+    @undo_record_on_error
     def ryy(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
             "target qubit is not integer"
@@ -311,6 +332,7 @@ class Circuit(object):
         else:
             self._add_u(self.two_qubit_rotation_gate(phi, self.n_qubits, target_qubit01, target_qubit02, way='ryy'))
 
+    @undo_record_on_error
     def rzz(self, target_qubit01, target_qubit02, phi):
         assert isinstance(target_qubit01, int), \
             "target qubit is not integer"
-- 
2.43.0


From 741ceff0a001451b4982ba0acb71cbbf7636f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:10 +0000
Subject: [PATCH 33/33] fix: MPS overlaps and local expectations accepted
 mismatched registers, counts or negative wires

---
 deepquantum/gates/qtensornetwork.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deepquantum/gates/qtensornetwork.py b/deepquantum/gates/qtensornetwork.py
index 667696c..1bdf686 100644
--- a/deepquantum/gates/qtensornetwork.py
+++ b/deepquantum/gates/qtensornetwork.py
@@ -162,6 +162,8 @@ def MPS_inner_product(ketMPS,braMPS):
     MPS做内积完全没必要，不如直接恢复成state vector再做内积
     '''
     N = len(ketMPS)
+    if len(braMPS) != N:
+        raise ValueError('MPS_inner_product: ketMPS and braMPS must have the same number of qubits')
     t = torch.ones(1,1) + 0j
     for i in range(N):
         #逐个qubit收缩：先收缩bra，再收缩ket
@@ -176,6 +178,10 @@ def MPS_expec(MPS,wires:List[int],local_obserable:List[torch.Tensor]):
     local_obserable是一个包含局部力学量(针对单个qubit的力学量，一个2X2矩阵)的list
     wires也是一个list，表明每个局部力学量作用在哪个qubit上
     '''
+    if len(wires) != len(local_obserable):
+        raise ValueError('MPS_expec: wires and local_obserable must have the same length')
+    if any(qbit < 0 or qbit >= len(MPS) for qbit in wires):
+        raise ValueError('MPS_expec: wires must be in [0,N-1]')
     SV0 = MPS2StateVec(MPS).view(1,-1)
     MPS = list(MPS) #不改变调用者的MPS
     
-- 
2.43.0

