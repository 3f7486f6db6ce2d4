From 8e6cab1b1267c7d827e50e902cc6f999778c830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 01/13] fix: return every ejected flit's credit when adapter
 and NoC cycles coincide

The map from node to virtual channel held one credit per node, and an
insert while that credit was still pending was dropped. With an adapter
clock that ticks more often between two NoC ticks (equal periods, ticks
evaluated in either order) credits were lost for good and the node's
ejection port stalled. Keep all of them and return one per NoC cycle.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_master_adapter.hpp | 4 ++--
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.hpp  | 4 ++--
 rad-sim/sim/noc/axis_master_adapter.cpp  | 2 +-
 rad-sim/sim/noc/axis_master_adapter.hpp  | 4 ++--
 rad-sim/sim/noc/radsim_noc.cpp           | 9 +++++----
 rad-sim/sim/noc/radsim_noc.hpp           | 4 ++--
 8 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..7ab68e4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -4,7 +4,7 @@ aximm_master_adapter::aximm_master_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_master_adapter.hpp b/rad-sim/sim/noc/aximm_master_adapter.hpp
index 6e7547a..d9f3cb4 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.hpp
@@ -35,7 +35,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   // Request Interface variables
   Flit *_ejected_booksim_flit;
@@ -89,7 +89,7 @@ public:
                        BookSimConfig *noc_config, Network *noc,
                        BufferState *buffer_state, tRoutingFunction routing_func,
                        bool lookahead_routing, bool wait_for_tail_credit,
-                       map<int, int> *ejected_flits,
+                       multimap<int, int> *ejected_flits,
                        unsigned int interface_dataw, double node_period,
                        double adapter_period);
   ~aximm_master_adapter();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..c4674a1 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -6,7 +6,7 @@ aximm_slave_adapter::aximm_slave_adapter(
     const sc_module_name &name, unsigned int rad_id, int node_id, int network_id,
     BookSimConfig *noc_config, Network *noc, BufferState *buffer_state,
     tRoutingFunction routing_func, bool lookahead_routing,
-    bool wait_for_tail_credit, map<int, int> *ejected_flits,
+    bool wait_for_tail_credit, multimap<int, int> *ejected_flits,
     unsigned int interface_dataw, double node_period, double adapter_period)
     : sc_module(name) {
 
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.hpp b/rad-sim/sim/noc/aximm_slave_adapter.hpp
index 7d05d8d..c1d951b 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.hpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.hpp
@@ -70,7 +70,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   /* Request interface signals for storing selected input request transaction
    * based on the following table:
@@ -170,7 +170,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits,
+                      multimap<int, int> *ejected_flits,
                       unsigned int interface_dataw, double node_period,
                       double adapter_period);
   ~aximm_slave_adapter() override;
diff --git a/rad-sim/sim/noc/axis_master_adapter.cpp b/rad-sim/sim/noc/axis_master_adapter.cpp
index 26bd400..5f9118d 100644
--- a/rad-sim/sim/noc/axis_master_adapter.cpp
+++ b/rad-sim/sim/noc/axis_master_adapter.cpp
@@ -6,7 +6,7 @@ axis_master_adapter::axis_master_adapter(
     std::vector<unsigned int> &interface_dataw, BookSimConfig *noc_config,
     Network *noc, BufferState *buffer_state, tRoutingFunction routing_func,
     bool lookahead_routing, bool wait_for_tail_credit,
-    map<int, int> *ejected_flits)
+    multimap<int, int> *ejected_flits)
     : sc_module(name) {
   _rad_id = rad_id;
   _node_id = node_id;
diff --git a/rad-sim/sim/noc/axis_master_adapter.hpp b/rad-sim/sim/noc/axis_master_adapter.hpp
index 38d81ba..ac36a0c 100644
--- a/rad-sim/sim/noc/axis_master_adapter.hpp
+++ b/rad-sim/sim/noc/axis_master_adapter.hpp
@@ -30,7 +30,7 @@ private:
   tRoutingFunction _routing_func;
   bool _lookahead_routing;
   bool _wait_for_tail_credit;
-  map<int, int> *_ejected_flits;
+  multimap<int, int> *_ejected_flits;
 
   Flit *_ejected_booksim_flit;
   unsigned int _ejection_afifo_depth;
@@ -59,7 +59,7 @@ public:
                       BookSimConfig *noc_config, Network *noc,
                       BufferState *buffer_state, tRoutingFunction routing_func,
                       bool lookahead_routing, bool wait_for_tail_credit,
-                      map<int, int> *ejected_flits);
+                      multimap<int, int> *ejected_flits);
   ~axis_master_adapter();
 
   void write_sc_packet_to_axis_output(sc_packet &packet,
diff --git a/rad-sim/sim/noc/radsim_noc.cpp b/rad-sim/sim/noc/radsim_noc.cpp
index 4bd974f..7f19fe5 100644
--- a/rad-sim/sim/noc/radsim_noc.cpp
+++ b/rad-sim/sim/noc/radsim_noc.cpp
@@ -38,7 +38,7 @@ radsim_noc::radsim_noc(const sc_module_name &name, unsigned int rad_id, std::str
   _wait_for_tail_credit = _config.GetInt("wait_for_tail_credit");
 
   // Create ejected flits map and buffer states for all routers in all subnets
-  _ejected_flits = new map<int, int>();
+  _ejected_flits = new multimap<int, int>();
   _buffer_state.resize(_num_noc_nodes);
   for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
     std::ostringstream tmp_name;
@@ -296,7 +296,7 @@ BufferState *radsim_noc::GetBufferState(int node) {
   return _buffer_state[node];
 }
 
-map<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
+multimap<int, int> *radsim_noc::GetEjectedFlitsMap() { return _ejected_flits; }
 
 void radsim_noc::Tick() {
   // Reset Code
@@ -305,14 +305,15 @@ void radsim_noc::Tick() {
   while (true) {
     _booksim_noc->ReadInputs();
     for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
-      map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
+      // Each node returns at most one credit per cycle, the rest wait their turn
+      multimap<int, int>::const_iterator iter = _ejected_flits->find(node_id);
       if (iter != _ejected_flits->end()) {
         Credit *const c = Credit::New();
         c->vc.insert(iter->second);
         _booksim_noc->WriteCredit(c, node_id);
+        _ejected_flits->erase(iter);
       }
     }
-    _ejected_flits->clear();
     _booksim_noc->Evaluate();
     _booksim_noc->WriteOutputs();
     _booksim_noc->Trace(NoCFlitTelemetry::ostream, double(GetSimTime()) / 1000);
diff --git a/rad-sim/sim/noc/radsim_noc.hpp b/rad-sim/sim/noc/radsim_noc.hpp
index b6328b9..7f7a86f 100644
--- a/rad-sim/sim/noc/radsim_noc.hpp
+++ b/rad-sim/sim/noc/radsim_noc.hpp
@@ -30,7 +30,7 @@ private:
   bool _lookahead_routing;                  // Is lookahead routing used?
   bool _wait_for_tail_credit;               // Do we wait for tail credit?
   std::vector<BufferState *> _buffer_state; // Vector of buffer state pointers
-  std::map<int, int>
+  std::multimap<int, int>
       *_ejected_flits; // Ejected flit map <node, virtual channel>
 
   unsigned int _num_axis_slave_endpoints, _num_axis_master_endpoints;
@@ -65,7 +65,7 @@ public:
   bool IsLookaheadRouting() const;
   bool IsWaitForTailCredit() const;
   BufferState *GetBufferState(int node);
-  map<int, int> *GetEjectedFlitsMap();
+  multimap<int, int> *GetEjectedFlitsMap();
 
   void Tick();
   SC_HAS_PROCESS(radsim_noc);
-- 
2.43.0


From acb641ee91c45057831bd9ad7ecfde7f581fabac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 02/13] fix: unpack AXI-MM burst, size and length from the
 control field

The master adapter computed the control field of the received AR/AW packet
but then read burst, size and length from the lowest bits of the whole
packet, so the memory saw response/user bits instead of the values sent.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 7ab68e4..d6db92c 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -278,13 +278,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -315,13 +315,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From 26015e5ee871ef58a0464c0a64a4364d1b445f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 03/13] fix: count the last and response bits when sizing
 AXI-MM packets

Address/control and B packets are laid out above the last and response
bits but were given flits for the address, control and user bits only.
With a link width that divides the shorter length (e.g. 47 or 33 bits) the
most significant address bits, or the response, were never sent.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index d6db92c..218cf01 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -491,7 +491,7 @@ void aximm_master_adapter::InputPacketization() {
         unsigned int num_flits = 0;
         if (_i_type.read() == AXI_TYPE_B) {
 
-          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW) * 1.0 /
+          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
                                           NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_RESP(packet_bv) = _i_resp.read();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index c4674a1..7df458d 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -293,7 +293,8 @@ void aximm_slave_adapter::InputPacketization() {
             (_i_type.read() == AXI_TYPE_AW)) {
 
           num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
+              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW +
+                                   AXI4_USERW + 1) * 1.0 /
                                   NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
-- 
2.43.0


From 0309a4ee2d45972824e2102fc77800ba7397d3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 04/13] fix: round the AXI-MM flits-per-transaction bound up

ceil() was applied to an integer quotient, so the injection FIFO was
declared to have room for a transaction one flit longer than its space and
grew past its configured depth.
---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 218cf01..10d1f5d 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -54,7 +54,7 @@ aximm_master_adapter::aximm_master_adapter(
     _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
   }
   _max_flits_per_transaction =
-      (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
+      (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
   _freq_ratio = (int)floor(_node_period / _adapter_period);
   _rready = false;
   _bready = false;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 7df458d..01c71c3 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -38,7 +38,7 @@ aximm_slave_adapter::aximm_slave_adapter(
     _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
   }
   _max_flits_per_transaction =
-      (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
+      (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
   _freq_ratio = (int)floor(_node_period / _adapter_period);
   _arready = false;
   _awready = false;
-- 
2.43.0


From 1c7b7634865b973a867f04cafd9b53720bcdfd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:23 +0000
Subject: [PATCH 05/13] fix: count the last and response bits in the AXI-MM
 flits-per-transaction bound

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 6 +++---
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 10d1f5d..88886e3 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -47,11 +47,11 @@ aximm_master_adapter::aximm_master_adapter(
   // Initialize response interface (B, R) member variables
   _injection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
-  _axi_transaction_width = AXI4_USERW;
-  if ((AXI4_ADDRW + AXI4_CTRLW) > (_interface_dataw + AXI4_RESPW + 1)) {
+  _axi_transaction_width = AXI4_USERW + AXI4_RESPW + 1;
+  if ((AXI4_ADDRW + AXI4_CTRLW) > _interface_dataw) {
     _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW);
   } else {
-    _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
+    _axi_transaction_width += _interface_dataw;
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 01c71c3..5da5ae6 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -31,11 +31,11 @@ aximm_slave_adapter::aximm_slave_adapter(
   _injection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
 
-  _axi_transaction_width = AXI4_USERW;
-  if ((AXI4_ADDRW + AXI4_CTRLW) > (_interface_dataw + AXI4_RESPW + 1)) {
+  _axi_transaction_width = AXI4_USERW + AXI4_RESPW + 1;
+  if ((AXI4_ADDRW + AXI4_CTRLW) > _interface_dataw) {
     _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW);
   } else {
-    _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
+    _axi_transaction_width += _interface_dataw;
   }
   _max_flits_per_transaction =
       (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
-- 
2.43.0


From 684357ff0cbd3557d95c285cba691070c1144154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 06/13] fix: place the node ID in the address bits the AXI-MM
 adapters decode

---
 rad-sim/sim/design_context.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/rad-sim/sim/design_context.cpp b/rad-sim/sim/design_context.cpp
index 1ae1be7..212e3c2 100644
--- a/rad-sim/sim/design_context.cpp
+++ b/rad-sim/sim/design_context.cpp
@@ -70,20 +70,15 @@ std::string GetModuleNameFromPortName(std::string &port_name) {
   return module_name;
 }
 
+// The most-significant AXI4_NODE_ADDRW bits hold the node ID, as decoded by the
+// AXI-MM adapters, followed by the NoC ID
 uint64_t DetermineBaseAddress(int noc_id, int node_id, int rad_id) {
   int num_nocs = radsim_config.GetIntKnobPerRad("noc_num_nocs", rad_id);
-  int max_num_nodes = 0;
-  for (int noc_id = 0; noc_id < num_nocs; noc_id++) {
-    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
-    if (num_nodes > max_num_nodes) {
-      max_num_nodes = num_nodes;
-    }
-  }
   int noc_bits = (int)ceil(log2(num_nocs));
-  int node_bits = (int)ceil(log2(max_num_nodes));
-  uint64_t base_addr = noc_id << node_bits;
-  base_addr += node_id;
-  base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
+  uint64_t base_addr = node_id;
+  base_addr <<= noc_bits;
+  base_addr += noc_id;
+  base_addr <<= (AXI4_ADDRW - AXI4_NODE_ADDRW - noc_bits);
   return base_addr;
 }
 
-- 
2.43.0


From 608933cbe4243ca5f083aad31a951d43de1616ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 07/13] fix: serve SREF_EXIT for a bank in self-refresh instead
 of aborting

---
 rad-sim/sim/dram/DRAMsim3/src/bankstate.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
index 46aa511..a1ad372 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/bankstate.cc
@@ -72,6 +72,9 @@ Command BankState::GetReadyCommand(const Command& cmd, uint64_t clk) const {
                 case CommandType::WRITE_PRECHARGE:
                     required_type = CommandType::SREF_EXIT;
                     break;
+                case CommandType::SREF_EXIT:
+                    required_type = cmd.cmd_type;
+                    break;
                 default:
                     std::cerr << "Unknown type!" << std::endl;
                     AbruptExit(__FILE__, __LINE__);
-- 
2.43.0


From 83274895cc4fc6d53a17a951cee2dd258234ac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 08/13] fix: keep a refreshed bank closed for tRFCb
 (REFRESH_BANK delays belong to the same bank)

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..6c31b2e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -222,7 +222,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
-- 
2.43.0


From b6e46ac3cb0306d29f9a4d1929e97d366f4f2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 09/13] fix: schedule reads that a full write buffer is waiting
 for

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index a582dcc..2565aa9 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -215,6 +215,19 @@ void Controller::ScheduleTransaction() {
                 // Enforce R->W dependency
                 if (pending_rd_q_.count(it->addr) > 0) {
                     write_draining_ = 0;
+                    // the read may still be in the read queue, and a full
+                    // write buffer restarts draining every cycle
+                    for (auto rd = read_queue_.begin();
+                         rd != read_queue_.end(); rd++) {
+                        auto rd_cmd = TransToCommand(*rd);
+                        if (cmd_queue_.WillAcceptCommand(rd_cmd.Rank(),
+                                                         rd_cmd.Bankgroup(),
+                                                         rd_cmd.Bank())) {
+                            cmd_queue_.AddCommand(rd_cmd);
+                            read_queue_.erase(rd);
+                            break;
+                        }
+                    }
                     break;
                 }
                 write_draining_ -= 1;
-- 
2.43.0


From 11df86049fe79bbdb4f65272fb5d267edad5f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 10/13] fix: do not put a rank into self-refresh while a
 refresh is waiting

---
 rad-sim/sim/dram/DRAMsim3/src/controller.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/controller.cc b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
index 2565aa9..ebdd1e4 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/controller.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/controller.cc
@@ -126,6 +126,7 @@ void Controller::ClockTick() {
                 }
             } else {
                 if (cmd_queue_.rank_q_empty[i] &&
+                    !channel_state_.IsRefreshWaiting() &&
                     channel_state_.rank_idle_cycles[i] >=
                         config_.sref_threshold) {
                     auto addr = Address();
-- 
2.43.0


From d43fd0447f7c0dfecb514075543e281fa3fef50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:57 +0000
Subject: [PATCH 11/13] fix: simultaneous refresh asks every rank for a refresh

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From 4a8df268550a00157425b7a58501f92ee35fa6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 12/13] fix: space bank refreshes by the bank refresh time, not
 by the rank's refresh interval

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 6c31b2e..1a00131 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -51,8 +51,6 @@ Timing::Timing(const Config& config)
         config.tRC;  // need to precharge before ref, so it's tRC
 
     // TODO: deal with different refresh rate
-    int refresh_to_refresh =
-        config.tREFI;  // refresh intervals (per rank level)
     int refresh_to_activate = config.tRFC;  // tRFC is defined as ref to act
     int refresh_to_activate_bank = config.tRFCb;
 
@@ -232,13 +230,13 @@ Timing::Timing(const Config& config)
     other_banks_same_bankgroup[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     other_bankgroups_same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate},
-            {CommandType::REFRESH_BANK, refresh_to_refresh},
+            {CommandType::REFRESH_BANK, refresh_to_activate_bank},
         };
 
     // REFRESH, SREF_ENTER and SREF_EXIT are isued to the entire
-- 
2.43.0


From 85295329a1f95c21cca0dad32ef8917060298ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:12 +0000
Subject: [PATCH 13/13] fix: keep the VC halves of a class disjoint for odd VC
 counts (torus dateline, XY-YX)

---
 rad-sim/sim/noc/booksim/networks/cmesh.cpp | 4 ++--
 rad-sim/sim/noc/booksim/routefunc.cpp      | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/booksim/networks/cmesh.cpp b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
index f597708..bd1dcac 100644
--- a/rad-sim/sim/noc/booksim/networks/cmesh.cpp
+++ b/rad-sim/sim/noc/booksim/networks/cmesh.cpp
@@ -510,7 +510,7 @@ void xy_yx_cmesh( const Router *r, const Flit *f, int in_channel,
 
       if(x_then_y) {
 	out_port = cmesh_xy( cur_router, dest_router );
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	out_port = cmesh_yx( cur_router, dest_router );
 	vcBegin += available_vcs;
@@ -653,7 +653,7 @@ void xy_yx_no_express_cmesh( const Router *r, const Flit *f, int in_channel,
 
       if(x_then_y) {
 	out_port = cmesh_xy_no_express( cur_router, dest_router );
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	out_port = cmesh_yx_no_express( cur_router, dest_router );
 	vcBegin += available_vcs;
diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..bf847db 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -478,7 +478,7 @@ void adaptive_xy_yx_mesh( const Router *r, const Flit *f,
     
     if(x_then_y) {
       out_port = out_port_xy;
-      vcEnd -= available_vcs;
+      vcEnd = vcBegin + available_vcs - 1;
     } else {
       out_port = out_port_yx;
       vcBegin += available_vcs;
@@ -539,7 +539,7 @@ void xy_yx_mesh( const Router *r, const Flit *f,
 
     if(x_then_y) {
       out_port = dor_next_mesh( r->GetID(), f->dest, false );
-      vcEnd -= available_vcs;
+      vcEnd = vcBegin + available_vcs - 1;
     } else {
       out_port = dor_next_mesh( r->GetID(), f->dest, true );
       vcBegin += available_vcs;
@@ -1610,7 +1610,7 @@ void dim_order_torus( const Router *r, const Flit *f, int in_channel,
       assert(available_vcs > 0);
 
       if ( f->ph == 0 ) {
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	vcBegin += available_vcs;
       } 
@@ -1748,7 +1748,7 @@ void dim_order_bal_torus( const Router *r, const Flit *f, int in_channel,
       assert(available_vcs > 0);
 
       if ( f->ph == 0 ) {
-	vcEnd -= available_vcs;
+	vcEnd = vcBegin + available_vcs - 1;
       } else {
 	assert(f->ph == 1);
 	vcBegin += available_vcs;
-- 
2.43.0

