// written by tools/mksigs.py
use super::{Sig, Ty::*};
pub static GEN: &[Sig] = &[
    Sig { name: "f_0_v", params: &[], ret: V },
    Sig { name: "f_0_l", params: &[], ret: L },
    Sig { name: "f_0_n", params: &[], ret: N },
    Sig { name: "f_v_v", params: &[V], ret: V },
    Sig { name: "f_v_l", params: &[V], ret: L },
    Sig { name: "f_v_n", params: &[V], ret: N },
    Sig { name: "f_l_v", params: &[L], ret: V },
    Sig { name: "f_l_l", params: &[L], ret: L },
    Sig { name: "f_l_n", params: &[L], ret: N },
    Sig { name: "f_n_v", params: &[N], ret: V },
    Sig { name: "f_n_l", params: &[N], ret: L },
    Sig { name: "f_n_n", params: &[N], ret: N },
    Sig { name: "f_vv_v", params: &[V, V], ret: V },
    Sig { name: "f_vv_l", params: &[V, V], ret: L },
    Sig { name: "f_vv_n", params: &[V, V], ret: N },
    Sig { name: "f_vl_v", params: &[V, L], ret: V },
    Sig { name: "f_vl_l", params: &[V, L], ret: L },
    Sig { name: "f_vl_n", params: &[V, L], ret: N },
    Sig { name: "f_vn_v", params: &[V, N], ret: V },
    Sig { name: "f_vn_l", params: &[V, N], ret: L },
    Sig { name: "f_vn_n", params: &[V, N], ret: N },
    Sig { name: "f_lv_v", params: &[L, V], ret: V },
    Sig { name: "f_lv_l", params: &[L, V], ret: L },
    Sig { name: "f_lv_n", params: &[L, V], ret: N },
    Sig { name: "f_ll_v", params: &[L, L], ret: V },
    Sig { name: "f_ll_l", params: &[L, L], ret: L },
    Sig { name: "f_ll_n", params: &[L, L], ret: N },
    Sig { name: "f_ln_v", params: &[L, N], ret: V },
    Sig { name: "f_ln_l", params: &[L, N], ret: L },
    Sig { name: "f_ln_n", params: &[L, N], ret: N },
    Sig { name: "f_nv_v", params: &[N, V], ret: V },
    Sig { name: "f_nv_l", params: &[N, V], ret: L },
    Sig { name: "f_nv_n", params: &[N, V], ret: N },
    Sig { name: "f_nl_v", params: &[N, L], ret: V },
    Sig { name: "f_nl_l", params: &[N, L], ret: L },
    Sig { name: "f_nl_n", params: &[N, L], ret: N },
    Sig { name: "f_nn_v", params: &[N, N], ret: V },
    Sig { name: "f_nn_l", params: &[N, N], ret: L },
    Sig { name: "f_nn_n", params: &[N, N], ret: N },
    Sig { name: "f_vvv_v", params: &[V, V, V], ret: V },
    Sig { name: "f_vvv_l", params: &[V, V, V], ret: L },
    Sig { name: "f_vvv_n", params: &[V, V, V], ret: N },
    Sig { name: "f_vvl_v", params: &[V, V, L], ret: V },
    Sig { name: "f_vvl_l", params: &[V, V, L], ret: L },
    Sig { name: "f_vvl_n", params: &[V, V, L], ret: N },
    Sig { name: "f_vvn_v", params: &[V, V, N], ret: V },
    Sig { name: "n46vvn", params: &[V, V, N], ret: L },
    Sig { name: "f_vvn_n", params: &[V, V, N], ret: N },
    Sig { name: "f_vlv_v", params: &[V, L, V], ret: V },
    Sig { name: "f_vlv_l", params: &[V, L, V], ret: L },
    Sig { name: "f_vlv_n", params: &[V, L, V], ret: N },
    Sig { name: "f_vll_v", params: &[V, L, L], ret: V },
    Sig { name: "f_vll_l", params: &[V, L, L], ret: L },
    Sig { name: "f_vll_n", params: &[V, L, L], ret: N },
    Sig { name: "f_vln_v", params: &[V, L, N], ret: V },
    Sig { name: "f_vln_l", params: &[V, L, N], ret: L },
    Sig { name: "f_vln_n", params: &[V, L, N], ret: N },
    Sig { name: "n57vnv", params: &[V, N, V], ret: V },
    Sig { name: "f_vnv_l", params: &[V, N, V], ret: L },
    Sig { name: "f_vnv_n", params: &[V, N, V], ret: N },
    Sig { name: "f_vnl_v", params: &[V, N, L], ret: V },
    Sig { name: "f_vnl_l", params: &[V, N, L], ret: L },
    Sig { name: "f_vnl_n", params: &[V, N, L], ret: N },
    Sig { name: "f_vnn_v", params: &[V, N, N], ret: V },
    Sig { name: "f_vnn_l", params: &[V, N, N], ret: L },
    Sig { name: "f_vnn_n", params: &[V, N, N], ret: N },
    Sig { name: "f_lvv_v", params: &[L, V, V], ret: V },
    Sig { name: "f_lvv_l", params: &[L, V, V], ret: L },
    Sig { name: "n68lvv", params: &[L, V, V], ret: N },
    Sig { name: "f_lvl_v", params: &[L, V, L], ret: V },
    Sig { name: "f_lvl_l", params: &[L, V, L], ret: L },
    Sig { name: "f_lvl_n", params: &[L, V, L], ret: N },
    Sig { name: "f_lvn_v", params: &[L, V, N], ret: V },
    Sig { name: "f_lvn_l", params: &[L, V, N], ret: L },
    Sig { name: "f_lvn_n", params: &[L, V, N], ret: N },
    Sig { name: "f_llv_v", params: &[L, L, V], ret: V },
    Sig { name: "f_llv_l", params: &[L, L, V], ret: L },
    Sig { name: "f_llv_n", params: &[L, L, V], ret: N },
    Sig { name: "f_lll_v", params: &[L, L, L], ret: V },
    Sig { name: "n79lll", params: &[L, L, L], ret: L },
    Sig { name: "f_lll_n", params: &[L, L, L], ret: N },
    Sig { name: "f_lln_v", params: &[L, L, N], ret: V },
    Sig { name: "f_lln_l", params: &[L, L, N], ret: L },
    Sig { name: "f_lln_n", params: &[L, L, N], ret: N },
    Sig { name: "f_lnv_v", params: &[L, N, V], ret: V },
    Sig { name: "f_lnv_l", params: &[L, N, V], ret: L },
    Sig { name: "f_lnv_n", params: &[L, N, V], ret: N },
    Sig { name: "f_lnl_v", params: &[L, N, L], ret: V },
    Sig { name: "f_lnl_l", params: &[L, N, L], ret: L },
    Sig { name: "f_lnl_n", params: &[L, N, L], ret: N },
    Sig { name: "n90lnn", params: &[L, N, N], ret: V },
    Sig { name: "f_lnn_l", params: &[L, N, N], ret: L },
    Sig { name: "f_lnn_n", params: &[L, N, N], ret: N },
    Sig { name: "f_nvv_v", params: &[N, V, V], ret: V },
    Sig { name: "f_nvv_l", params: &[N, V, V], ret: L },
    Sig { name: "f_nvv_n", params: &[N, V, V], ret: N },
    Sig { name: "f_nvl_v", params: &[N, V, L], ret: V },
    Sig { name: "f_nvl_l", params: &[N, V, L], ret: L },
    Sig { name: "f_nvl_n", params: &[N, V, L], ret: N },
    Sig { name: "f_nvn_v", params: &[N, V, N], ret: V },
    Sig { name: "f_nvn_l", params: &[N, V, N], ret: L },
    Sig { name: "n101nvn", params: &[N, V, N], ret: N },
    Sig { name: "f_nlv_v", params: &[N, L, V], ret: V },
    Sig { name: "f_nlv_l", params: &[N, L, V], ret: L },
    Sig { name: "f_nlv_n", params: &[N, L, V], ret: N },
    Sig { name: "f_nll_v", params: &[N, L, L], ret: V },
    Sig { name: "f_nll_l", params: &[N, L, L], ret: L },
    Sig { name: "f_nll_n", params: &[N, L, L], ret: N },
    Sig { name: "f_nln_v", params: &[N, L, N], ret: V },
    Sig { name: "f_nln_l", params: &[N, L, N], ret: L },
    Sig { name: "f_nln_n", params: &[N, L, N], ret: N },
    Sig { name: "f_nnv_v", params: &[N, N, V], ret: V },
    Sig { name: "n112nnv", params: &[N, N, V], ret: L },
    Sig { name: "f_nnv_n", params: &[N, N, V], ret: N },
    Sig { name: "f_nnl_v", params: &[N, N, L], ret: V },
    Sig { name: "f_nnl_l", params: &[N, N, L], ret: L },
    Sig { name: "f_nnl_n", params: &[N, N, L], ret: N },
    Sig { name: "f_nnn_v", params: &[N, N, N], ret: V },
    Sig { name: "f_nnn_l", params: &[N, N, N], ret: L },
    Sig { name: "f_nnn_n", params: &[N, N, N], ret: N },
    Sig { name: "f_lvln_v", params: &[L, V, L, N], ret: V },
    Sig { name: "f_vvnv_l", params: &[V, V, N, V], ret: L },
    Sig { name: "n122lnvn", params: &[L, N, V, N], ret: N },
    Sig { name: "f_vvvl_v", params: &[V, V, V, L], ret: V },
    Sig { name: "f_lvvv_l", params: &[L, V, V, V], ret: L },
    Sig { name: "f_nlvn_n", params: &[N, L, V, N], ret: N },
    Sig { name: "f_vvnnn_v", params: &[V, V, N, N, N], ret: V },
    Sig { name: "n127vnnlv", params: &[V, N, N, L, V], ret: L },
    Sig { name: "f_vvnvl_n", params: &[V, V, N, V, L], ret: N },
    Sig { name: "f_lvnvn_v", params: &[L, V, N, V, N], ret: V },
    Sig { name: "f_lnnvv_l", params: &[L, N, N, V, V], ret: L },
    Sig { name: "f_nnnvl_n", params: &[N, N, N, V, L], ret: N },
    Sig { name: "n132vnnvnv", params: &[V, N, N, V, N, V], ret: V },
    Sig { name: "f_nvlnnl_l", params: &[N, V, L, N, N, L], ret: L },
    Sig { name: "f_llnlll_n", params: &[L, L, N, L, L, L], ret: N },
    Sig { name: "f_vvnvvn_v", params: &[V, V, N, V, V, N], ret: V },
    Sig { name: "f_lnllnl_l", params: &[L, N, L, L, N, L], ret: L },
    Sig { name: "n137lnvvnl", params: &[L, N, V, V, N, L], ret: N },
    Sig { name: "f_vlvllvn_v", params: &[V, L, V, L, L, V, N], ret: V },
    Sig { name: "f_vnnllnl_l", params: &[V, N, N, L, L, N, L], ret: L },
    Sig { name: "f_nlnlvvl_n", params: &[N, L, N, L, V, V, L], ret: N },
    Sig { name: "f_lnnvvnn_v", params: &[L, N, N, V, V, N, N], ret: V },
    Sig { name: "n142lnnnlln", params: &[L, N, N, N, L, L, N], ret: L },
    Sig { name: "f_lnlvllv_n", params: &[L, N, L, V, L, L, V], ret: N },
    Sig { name: "f_nvlvvlvn_v", params: &[N, V, L, V, V, L, V, N], ret: V },
    Sig { name: "f_vlllvvll_l", params: &[V, L, L, L, V, V, L, L], ret: L },
    Sig { name: "f_nlvlnlnl_n", params: &[N, L, V, L, N, L, N, L], ret: N },
    Sig { name: "n147lnlvvvvvv", params: &[L, N, L, V, V, V, V, V, V], ret: V },
    Sig { name: "f_nvvlnvllv_l", params: &[N, V, V, L, N, V, L, L, V], ret: L },
    Sig { name: "f_vlnlnnlvn_n", params: &[V, L, N, L, N, N, L, V, N], ret: N },
    Sig { name: "f_nnnnnvlnnlll_v", params: &[N, N, N, N, N, V, L, N, N, L, L, L], ret: V },
    Sig { name: "f_lvlnlvvvvlvv_l", params: &[L, V, L, N, L, V, V, V, V, L, V, V], ret: L },
    Sig { name: "n152lnvvvnvnvlnv", params: &[L, N, V, V, V, N, V, N, V, L, N, V], ret: N },
    Sig { name: "f_vvnlvnllnllvvlll_v", params: &[V, V, N, L, V, N, L, L, N, L, L, V, V, L, L, L], ret: V },
    Sig { name: "f_llvvvnlnllnvnvvn_l", params: &[L, L, V, V, V, N, L, N, L, L, N, V, N, V, V, N], ret: L },
    Sig { name: "f_lvnnvnlnvnlnlvlv_n", params: &[L, V, N, N, V, N, L, N, V, N, L, N, L, V, L, V], ret: N },
];
#[cfg(feature = "functions")]
mod functions {
    use super::super::custom::A;
    use serde_json_path::functions::{LogicalType, NodesType, ValueType};
    /// documented
    #[serde_json_path::function]
    fn f_0_v() -> ValueType<'static> {
        A::v("f_0_v", vec![])
    }
    #[serde_json_path::function(name = "f_0_l")]
    pub fn rust_name_1() -> LogicalType {
        A::l("f_0_l", vec![])
    }
    #[serde_json_path::function]
    pub(crate) fn f_0_n() -> super::NodesType<'static> {
        A::n("f_0_n", vec![])
    }
    #[serde_json_path::function]
    fn f_v_v<'a>(x0: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_v_v", vec![A::V(x0)])
    }
    #[serde_json_path::function(name = "f_v_l")]
    fn rust_name_4<'a>(x0: ValueType<'a>) -> LogicalType {
        A::l("f_v_l", vec![A::V(x0)])
    }
    #[serde_json_path::function]
    pub fn f_v_n<'a>(x0: ValueType<'a>) -> NodesType<'a> {
        A::n("f_v_n", vec![A::V(x0)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_l_v(x0: LogicalType) -> super::ValueType<'static> {
        A::v("f_l_v", vec![A::L(x0)])
    }
    #[serde_json_path::function(name = "f_l_l")]
    fn rust_name_7(x0: LogicalType) -> LogicalType {
        A::l("f_l_l", vec![A::L(x0)])
    }
    #[serde_json_path::function]
    fn f_l_n(x0: LogicalType) -> NodesType<'static> {
        A::n("f_l_n", vec![A::L(x0)])
    }
    #[serde_json_path::function]
    pub fn f_n_v<'a>(x0: NodesType<'a>) -> ValueType<'a> {
        A::v("f_n_v", vec![A::N(x0)])
    }
    #[serde_json_path::function(name = "f_n_l")]
    pub(crate) fn rust_name_10<'a>(x0: super::NodesType<'a>) -> LogicalType {
        A::l("f_n_l", vec![A::N(x0)])
    }
    #[serde_json_path::function]
    fn f_n_n<'a>(x0: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_n_n", vec![A::N(x0)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_vv_v<'a>(x0: ValueType<'a>, x1: ValueType<'a>) -> ValueType<'a> {
        A::v("f_vv_v", vec![A::V(x0), A::V(x1)])
    }
    #[serde_json_path::function(name = "f_vv_l")]
    pub fn rust_name_13<'a>(x0: ValueType<'a>, x1: ValueType<'a>) -> LogicalType {
        A::l("f_vv_l", vec![A::V(x0), A::V(x1)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_vv_n<'a>(x0: super::ValueType<'a>, x1: super::ValueType<'a>) -> super::NodesType<'a> {
        A::n("f_vv_n", vec![A::V(x0), A::V(x1)])
    }
    #[serde_json_path::function]
    fn f_vl_v<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: LogicalType) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_vl_v", vec![A::V(x0), A::L(x1)])
    }
    #[serde_json_path::function(name = "f_vl_l")]
    fn rust_name_16<'a>(x0: ValueType<'a>, x1: LogicalType) -> LogicalType {
        A::l("f_vl_l", vec![A::V(x0), A::L(x1)])
    }
    #[serde_json_path::function]
    pub fn f_vl_n<'a>(x0: ValueType<'a>, x1: LogicalType) -> NodesType<'a> {
        A::n("f_vl_n", vec![A::V(x0), A::L(x1)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_vn_v<'a>(x0: super::ValueType<'a>, x1: super::NodesType<'a>) -> super::ValueType<'a> {
        A::v("f_vn_v", vec![A::V(x0), A::N(x1)])
    }
    #[serde_json_path::function(name = "f_vn_l")]
    fn rust_name_19<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::NodesType<'a>) -> LogicalType {
        A::l("f_vn_l", vec![A::V(x0), A::N(x1)])
    }
    #[serde_json_path::function]
    fn f_vn_n<'a>(x0: ValueType<'a>, x1: NodesType<'a>) -> NodesType<'a> {
        A::n("f_vn_n", vec![A::V(x0), A::N(x1)])
    }
    #[serde_json_path::function]
    pub fn f_lv_v<'a>(x0: LogicalType, x1: ValueType<'a>) -> ValueType<'a> {
        A::v("f_lv_v", vec![A::L(x0), A::V(x1)])
    }
    #[serde_json_path::function(name = "f_lv_l")]
    pub(crate) fn rust_name_22<'a>(x0: LogicalType, x1: super::ValueType<'a>) -> LogicalType {
        A::l("f_lv_l", vec![A::L(x0), A::V(x1)])
    }
    #[serde_json_path::function]
    fn f_lv_n<'a>(x0: LogicalType, x1: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_lv_n", vec![A::L(x0), A::V(x1)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_ll_v(x0: LogicalType, x1: LogicalType) -> ValueType<'static> {
        A::v("f_ll_v", vec![A::L(x0), A::L(x1)])
    }
    #[serde_json_path::function(name = "f_ll_l")]
    pub fn rust_name_25(x0: LogicalType, x1: LogicalType) -> LogicalType {
        A::l("f_ll_l", vec![A::L(x0), A::L(x1)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_ll_n(x0: LogicalType, x1: LogicalType) -> super::NodesType<'static> {
        A::n("f_ll_n", vec![A::L(x0), A::L(x1)])
    }
    #[serde_json_path::function]
    fn f_ln_v<'a>(x0: LogicalType, x1: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_ln_v", vec![A::L(x0), A::N(x1)])
    }
    #[serde_json_path::function(name = "f_ln_l")]
    fn rust_name_28<'a>(x0: LogicalType, x1: NodesType<'a>) -> LogicalType {
        A::l("f_ln_l", vec![A::L(x0), A::N(x1)])
    }
    #[serde_json_path::function]
    pub fn f_ln_n<'a>(x0: LogicalType, x1: NodesType<'a>) -> NodesType<'a> {
        A::n("f_ln_n", vec![A::L(x0), A::N(x1)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_nv_v<'a>(x0: super::NodesType<'a>, x1: super::ValueType<'a>) -> super::ValueType<'a> {
        A::v("f_nv_v", vec![A::N(x0), A::V(x1)])
    }
    #[serde_json_path::function(name = "f_nv_l")]
    fn rust_name_31<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: serde_json_path::functions::ValueType<'a>) -> LogicalType {
        A::l("f_nv_l", vec![A::N(x0), A::V(x1)])
    }
    #[serde_json_path::function]
    fn f_nv_n<'a>(x0: NodesType<'a>, x1: ValueType<'a>) -> NodesType<'a> {
        A::n("f_nv_n", vec![A::N(x0), A::V(x1)])
    }
    #[serde_json_path::function]
    pub fn f_nl_v<'a>(x0: NodesType<'a>, x1: LogicalType) -> ValueType<'a> {
        A::v("f_nl_v", vec![A::N(x0), A::L(x1)])
    }
    #[serde_json_path::function(name = "f_nl_l")]
    pub(crate) fn rust_name_34<'a>(x0: super::NodesType<'a>, x1: LogicalType) -> LogicalType {
        A::l("f_nl_l", vec![A::N(x0), A::L(x1)])
    }
    #[serde_json_path::function]
    fn f_nl_n<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: LogicalType) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_nl_n", vec![A::N(x0), A::L(x1)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_nn_v<'a>(x0: NodesType<'a>, x1: NodesType<'a>) -> ValueType<'a> {
        A::v("f_nn_v", vec![A::N(x0), A::N(x1)])
    }
    #[serde_json_path::function(name = "f_nn_l")]
    pub fn rust_name_37<'a>(x0: NodesType<'a>, x1: NodesType<'a>) -> LogicalType {
        A::l("f_nn_l", vec![A::N(x0), A::N(x1)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_nn_n<'a>(x0: super::NodesType<'a>, x1: super::NodesType<'a>) -> super::NodesType<'a> {
        A::n("f_nn_n", vec![A::N(x0), A::N(x1)])
    }
    #[serde_json_path::function]
    fn f_vvv_v<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_vvv_v", vec![A::V(x0), A::V(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_vvv_l")]
    fn rust_name_40<'a>(x0: ValueType<'a>, x1: ValueType<'a>, x2: ValueType<'a>) -> LogicalType {
        A::l("f_vvv_l", vec![A::V(x0), A::V(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    pub fn f_vvv_n<'a>(x0: ValueType<'a>, x1: ValueType<'a>, x2: ValueType<'a>) -> NodesType<'a> {
        A::n("f_vvv_n", vec![A::V(x0), A::V(x1), A::V(x2)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_vvl_v<'a>(x0: super::ValueType<'a>, x1: super::ValueType<'a>, x2: LogicalType) -> super::ValueType<'a> {
        A::v("f_vvl_v", vec![A::V(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_vvl_l")]
    fn rust_name_43<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::ValueType<'a>, x2: LogicalType) -> LogicalType {
        A::l("f_vvl_l", vec![A::V(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    fn f_vvl_n<'a>(x0: ValueType<'a>, x1: ValueType<'a>, x2: LogicalType) -> NodesType<'a> {
        A::n("f_vvl_n", vec![A::V(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    pub fn f_vvn_v<'a>(x0: ValueType<'a>, x1: ValueType<'a>, x2: NodesType<'a>) -> ValueType<'a> {
        A::v("f_vvn_v", vec![A::V(x0), A::V(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "n46vvn")]
    pub(crate) fn rust_name_46<'a>(x0: super::ValueType<'a>, x1: super::ValueType<'a>, x2: super::NodesType<'a>) -> LogicalType {
        A::l("n46vvn", vec![A::V(x0), A::V(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    fn f_vvn_n<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_vvn_n", vec![A::V(x0), A::V(x1), A::N(x2)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_vlv_v<'a>(x0: ValueType<'a>, x1: LogicalType, x2: ValueType<'a>) -> ValueType<'a> {
        A::v("f_vlv_v", vec![A::V(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_vlv_l")]
    pub fn rust_name_49<'a>(x0: ValueType<'a>, x1: LogicalType, x2: ValueType<'a>) -> LogicalType {
        A::l("f_vlv_l", vec![A::V(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_vlv_n<'a>(x0: super::ValueType<'a>, x1: LogicalType, x2: super::ValueType<'a>) -> super::NodesType<'a> {
        A::n("f_vlv_n", vec![A::V(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    fn f_vll_v<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: LogicalType, x2: LogicalType) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_vll_v", vec![A::V(x0), A::L(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_vll_l")]
    fn rust_name_52<'a>(x0: ValueType<'a>, x1: LogicalType, x2: LogicalType) -> LogicalType {
        A::l("f_vll_l", vec![A::V(x0), A::L(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    pub fn f_vll_n<'a>(x0: ValueType<'a>, x1: LogicalType, x2: LogicalType) -> NodesType<'a> {
        A::n("f_vll_n", vec![A::V(x0), A::L(x1), A::L(x2)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_vln_v<'a>(x0: super::ValueType<'a>, x1: LogicalType, x2: super::NodesType<'a>) -> super::ValueType<'a> {
        A::v("f_vln_v", vec![A::V(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_vln_l")]
    fn rust_name_55<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: LogicalType, x2: serde_json_path::functions::NodesType<'a>) -> LogicalType {
        A::l("f_vln_l", vec![A::V(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    fn f_vln_n<'a>(x0: ValueType<'a>, x1: LogicalType, x2: NodesType<'a>) -> NodesType<'a> {
        A::n("f_vln_n", vec![A::V(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "n57vnv")]
    pub fn rust_name_57<'a>(x0: ValueType<'a>, x1: NodesType<'a>, x2: ValueType<'a>) -> ValueType<'a> {
        A::v("n57vnv", vec![A::V(x0), A::N(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_vnv_l")]
    pub(crate) fn rust_name_58<'a>(x0: super::ValueType<'a>, x1: super::NodesType<'a>, x2: super::ValueType<'a>) -> LogicalType {
        A::l("f_vnv_l", vec![A::V(x0), A::N(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    fn f_vnv_n<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_vnv_n", vec![A::V(x0), A::N(x1), A::V(x2)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_vnl_v<'a>(x0: ValueType<'a>, x1: NodesType<'a>, x2: LogicalType) -> ValueType<'a> {
        A::v("f_vnl_v", vec![A::V(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_vnl_l")]
    pub fn rust_name_61<'a>(x0: ValueType<'a>, x1: NodesType<'a>, x2: LogicalType) -> LogicalType {
        A::l("f_vnl_l", vec![A::V(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_vnl_n<'a>(x0: super::ValueType<'a>, x1: super::NodesType<'a>, x2: LogicalType) -> super::NodesType<'a> {
        A::n("f_vnl_n", vec![A::V(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    fn f_vnn_v<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_vnn_v", vec![A::V(x0), A::N(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_vnn_l")]
    fn rust_name_64<'a>(x0: ValueType<'a>, x1: NodesType<'a>, x2: NodesType<'a>) -> LogicalType {
        A::l("f_vnn_l", vec![A::V(x0), A::N(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    pub fn f_vnn_n<'a>(x0: ValueType<'a>, x1: NodesType<'a>, x2: NodesType<'a>) -> NodesType<'a> {
        A::n("f_vnn_n", vec![A::V(x0), A::N(x1), A::N(x2)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_lvv_v<'a>(x0: LogicalType, x1: super::ValueType<'a>, x2: super::ValueType<'a>) -> super::ValueType<'a> {
        A::v("f_lvv_v", vec![A::L(x0), A::V(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_lvv_l")]
    fn rust_name_67<'a>(x0: LogicalType, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::ValueType<'a>) -> LogicalType {
        A::l("f_lvv_l", vec![A::L(x0), A::V(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "n68lvv")]
    fn rust_name_68<'a>(x0: LogicalType, x1: ValueType<'a>, x2: ValueType<'a>) -> NodesType<'a> {
        A::n("n68lvv", vec![A::L(x0), A::V(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    pub fn f_lvl_v<'a>(x0: LogicalType, x1: ValueType<'a>, x2: LogicalType) -> ValueType<'a> {
        A::v("f_lvl_v", vec![A::L(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_lvl_l")]
    pub(crate) fn rust_name_70<'a>(x0: LogicalType, x1: super::ValueType<'a>, x2: LogicalType) -> LogicalType {
        A::l("f_lvl_l", vec![A::L(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    fn f_lvl_n<'a>(x0: LogicalType, x1: serde_json_path::functions::ValueType<'a>, x2: LogicalType) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_lvl_n", vec![A::L(x0), A::V(x1), A::L(x2)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_lvn_v<'a>(x0: LogicalType, x1: ValueType<'a>, x2: NodesType<'a>) -> ValueType<'a> {
        A::v("f_lvn_v", vec![A::L(x0), A::V(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_lvn_l")]
    pub fn rust_name_73<'a>(x0: LogicalType, x1: ValueType<'a>, x2: NodesType<'a>) -> LogicalType {
        A::l("f_lvn_l", vec![A::L(x0), A::V(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_lvn_n<'a>(x0: LogicalType, x1: super::ValueType<'a>, x2: super::NodesType<'a>) -> super::NodesType<'a> {
        A::n("f_lvn_n", vec![A::L(x0), A::V(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    fn f_llv_v<'a>(x0: LogicalType, x1: LogicalType, x2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_llv_v", vec![A::L(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_llv_l")]
    fn rust_name_76<'a>(x0: LogicalType, x1: LogicalType, x2: ValueType<'a>) -> LogicalType {
        A::l("f_llv_l", vec![A::L(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    pub fn f_llv_n<'a>(x0: LogicalType, x1: LogicalType, x2: ValueType<'a>) -> NodesType<'a> {
        A::n("f_llv_n", vec![A::L(x0), A::L(x1), A::V(x2)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_lll_v(x0: LogicalType, x1: LogicalType, x2: LogicalType) -> super::ValueType<'static> {
        A::v("f_lll_v", vec![A::L(x0), A::L(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "n79lll")]
    fn rust_name_79(x0: LogicalType, x1: LogicalType, x2: LogicalType) -> LogicalType {
        A::l("n79lll", vec![A::L(x0), A::L(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    fn f_lll_n(x0: LogicalType, x1: LogicalType, x2: LogicalType) -> NodesType<'static> {
        A::n("f_lll_n", vec![A::L(x0), A::L(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    pub fn f_lln_v<'a>(x0: LogicalType, x1: LogicalType, x2: NodesType<'a>) -> ValueType<'a> {
        A::v("f_lln_v", vec![A::L(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_lln_l")]
    pub(crate) fn rust_name_82<'a>(x0: LogicalType, x1: LogicalType, x2: super::NodesType<'a>) -> LogicalType {
        A::l("f_lln_l", vec![A::L(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    fn f_lln_n<'a>(x0: LogicalType, x1: LogicalType, x2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_lln_n", vec![A::L(x0), A::L(x1), A::N(x2)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_lnv_v<'a>(x0: LogicalType, x1: NodesType<'a>, x2: ValueType<'a>) -> ValueType<'a> {
        A::v("f_lnv_v", vec![A::L(x0), A::N(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_lnv_l")]
    pub fn rust_name_85<'a>(x0: LogicalType, x1: NodesType<'a>, x2: ValueType<'a>) -> LogicalType {
        A::l("f_lnv_l", vec![A::L(x0), A::N(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_lnv_n<'a>(x0: LogicalType, x1: super::NodesType<'a>, x2: super::ValueType<'a>) -> super::NodesType<'a> {
        A::n("f_lnv_n", vec![A::L(x0), A::N(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    fn f_lnl_v<'a>(x0: LogicalType, x1: serde_json_path::functions::NodesType<'a>, x2: LogicalType) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_lnl_v", vec![A::L(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_lnl_l")]
    fn rust_name_88<'a>(x0: LogicalType, x1: NodesType<'a>, x2: LogicalType) -> LogicalType {
        A::l("f_lnl_l", vec![A::L(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    pub fn f_lnl_n<'a>(x0: LogicalType, x1: NodesType<'a>, x2: LogicalType) -> NodesType<'a> {
        A::n("f_lnl_n", vec![A::L(x0), A::N(x1), A::L(x2)])
    }
    /// documented
    #[serde_json_path::function(name = "n90lnn")]
    pub(crate) fn rust_name_90<'a>(x0: LogicalType, x1: super::NodesType<'a>, x2: super::NodesType<'a>) -> super::ValueType<'a> {
        A::v("n90lnn", vec![A::L(x0), A::N(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_lnn_l")]
    fn rust_name_91<'a>(x0: LogicalType, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::NodesType<'a>) -> LogicalType {
        A::l("f_lnn_l", vec![A::L(x0), A::N(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    fn f_lnn_n<'a>(x0: LogicalType, x1: NodesType<'a>, x2: NodesType<'a>) -> NodesType<'a> {
        A::n("f_lnn_n", vec![A::L(x0), A::N(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    pub fn f_nvv_v<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: ValueType<'a>) -> ValueType<'a> {
        A::v("f_nvv_v", vec![A::N(x0), A::V(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_nvv_l")]
    pub(crate) fn rust_name_94<'a>(x0: super::NodesType<'a>, x1: super::ValueType<'a>, x2: super::ValueType<'a>) -> LogicalType {
        A::l("f_nvv_l", vec![A::N(x0), A::V(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    fn f_nvv_n<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_nvv_n", vec![A::N(x0), A::V(x1), A::V(x2)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_nvl_v<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: LogicalType) -> ValueType<'a> {
        A::v("f_nvl_v", vec![A::N(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_nvl_l")]
    pub fn rust_name_97<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: LogicalType) -> LogicalType {
        A::l("f_nvl_l", vec![A::N(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_nvl_n<'a>(x0: super::NodesType<'a>, x1: super::ValueType<'a>, x2: LogicalType) -> super::NodesType<'a> {
        A::n("f_nvl_n", vec![A::N(x0), A::V(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    fn f_nvn_v<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_nvn_v", vec![A::N(x0), A::V(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_nvn_l")]
    fn rust_name_100<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: NodesType<'a>) -> LogicalType {
        A::l("f_nvn_l", vec![A::N(x0), A::V(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "n101nvn")]
    pub fn rust_name_101<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: NodesType<'a>) -> NodesType<'a> {
        A::n("n101nvn", vec![A::N(x0), A::V(x1), A::N(x2)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_nlv_v<'a>(x0: super::NodesType<'a>, x1: LogicalType, x2: super::ValueType<'a>) -> super::ValueType<'a> {
        A::v("f_nlv_v", vec![A::N(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "f_nlv_l")]
    fn rust_name_103<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: LogicalType, x2: serde_json_path::functions::ValueType<'a>) -> LogicalType {
        A::l("f_nlv_l", vec![A::N(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    fn f_nlv_n<'a>(x0: NodesType<'a>, x1: LogicalType, x2: ValueType<'a>) -> NodesType<'a> {
        A::n("f_nlv_n", vec![A::N(x0), A::L(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    pub fn f_nll_v<'a>(x0: NodesType<'a>, x1: LogicalType, x2: LogicalType) -> ValueType<'a> {
        A::v("f_nll_v", vec![A::N(x0), A::L(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_nll_l")]
    pub(crate) fn rust_name_106<'a>(x0: super::NodesType<'a>, x1: LogicalType, x2: LogicalType) -> LogicalType {
        A::l("f_nll_l", vec![A::N(x0), A::L(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    fn f_nll_n<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: LogicalType, x2: LogicalType) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_nll_n", vec![A::N(x0), A::L(x1), A::L(x2)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_nln_v<'a>(x0: NodesType<'a>, x1: LogicalType, x2: NodesType<'a>) -> ValueType<'a> {
        A::v("f_nln_v", vec![A::N(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_nln_l")]
    pub fn rust_name_109<'a>(x0: NodesType<'a>, x1: LogicalType, x2: NodesType<'a>) -> LogicalType {
        A::l("f_nln_l", vec![A::N(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_nln_n<'a>(x0: super::NodesType<'a>, x1: LogicalType, x2: super::NodesType<'a>) -> super::NodesType<'a> {
        A::n("f_nln_n", vec![A::N(x0), A::L(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    fn f_nnv_v<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_nnv_v", vec![A::N(x0), A::N(x1), A::V(x2)])
    }
    #[serde_json_path::function(name = "n112nnv")]
    fn rust_name_112<'a>(x0: NodesType<'a>, x1: NodesType<'a>, x2: ValueType<'a>) -> LogicalType {
        A::l("n112nnv", vec![A::N(x0), A::N(x1), A::V(x2)])
    }
    #[serde_json_path::function]
    pub fn f_nnv_n<'a>(x0: NodesType<'a>, x1: NodesType<'a>, x2: ValueType<'a>) -> NodesType<'a> {
        A::n("f_nnv_n", vec![A::N(x0), A::N(x1), A::V(x2)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_nnl_v<'a>(x0: super::NodesType<'a>, x1: super::NodesType<'a>, x2: LogicalType) -> super::ValueType<'a> {
        A::v("f_nnl_v", vec![A::N(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function(name = "f_nnl_l")]
    fn rust_name_115<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: LogicalType) -> LogicalType {
        A::l("f_nnl_l", vec![A::N(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    fn f_nnl_n<'a>(x0: NodesType<'a>, x1: NodesType<'a>, x2: LogicalType) -> NodesType<'a> {
        A::n("f_nnl_n", vec![A::N(x0), A::N(x1), A::L(x2)])
    }
    #[serde_json_path::function]
    pub fn f_nnn_v<'a>(x0: NodesType<'a>, x1: NodesType<'a>, x2: NodesType<'a>) -> ValueType<'a> {
        A::v("f_nnn_v", vec![A::N(x0), A::N(x1), A::N(x2)])
    }
    #[serde_json_path::function(name = "f_nnn_l")]
    pub(crate) fn rust_name_118<'a>(x0: super::NodesType<'a>, x1: super::NodesType<'a>, x2: super::NodesType<'a>) -> LogicalType {
        A::l("f_nnn_l", vec![A::N(x0), A::N(x1), A::N(x2)])
    }
    #[serde_json_path::function]
    fn f_nnn_n<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_nnn_n", vec![A::N(x0), A::N(x1), A::N(x2)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_lvln_v<'a>(x0: LogicalType, x1: ValueType<'a>, x2: LogicalType, x3: NodesType<'a>) -> ValueType<'a> {
        A::v("f_lvln_v", vec![A::L(x0), A::V(x1), A::L(x2), A::N(x3)])
    }
    #[serde_json_path::function(name = "f_vvnv_l")]
    pub fn rust_name_121<'a>(x0: ValueType<'a>, x1: ValueType<'a>, x2: NodesType<'a>, x3: ValueType<'a>) -> LogicalType {
        A::l("f_vvnv_l", vec![A::V(x0), A::V(x1), A::N(x2), A::V(x3)])
    }
    #[serde_json_path::function(name = "n122lnvn")]
    pub(crate) fn rust_name_122<'a>(x0: LogicalType, x1: super::NodesType<'a>, x2: super::ValueType<'a>, x3: super::NodesType<'a>) -> super::NodesType<'a> {
        A::n("n122lnvn", vec![A::L(x0), A::N(x1), A::V(x2), A::N(x3)])
    }
    #[serde_json_path::function]
    fn f_vvvl_v<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::ValueType<'a>, x3: LogicalType) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_vvvl_v", vec![A::V(x0), A::V(x1), A::V(x2), A::L(x3)])
    }
    #[serde_json_path::function(name = "f_lvvv_l")]
    fn rust_name_124<'a>(x0: LogicalType, x1: ValueType<'a>, x2: ValueType<'a>, x3: ValueType<'a>) -> LogicalType {
        A::l("f_lvvv_l", vec![A::L(x0), A::V(x1), A::V(x2), A::V(x3)])
    }
    #[serde_json_path::function]
    pub fn f_nlvn_n<'a>(x0: NodesType<'a>, x1: LogicalType, x2: ValueType<'a>, x3: NodesType<'a>) -> NodesType<'a> {
        A::n("f_nlvn_n", vec![A::N(x0), A::L(x1), A::V(x2), A::N(x3)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_vvnnn_v<'a>(x0: super::ValueType<'a>, x1: super::ValueType<'a>, x2: super::NodesType<'a>, x3: super::NodesType<'a>, x4: super::NodesType<'a>) -> super::ValueType<'a> {
        A::v("f_vvnnn_v", vec![A::V(x0), A::V(x1), A::N(x2), A::N(x3), A::N(x4)])
    }
    #[serde_json_path::function(name = "n127vnnlv")]
    fn rust_name_127<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::NodesType<'a>, x3: LogicalType, x4: serde_json_path::functions::ValueType<'a>) -> LogicalType {
        A::l("n127vnnlv", vec![A::V(x0), A::N(x1), A::N(x2), A::L(x3), A::V(x4)])
    }
    #[serde_json_path::function]
    fn f_vvnvl_n<'a>(x0: ValueType<'a>, x1: ValueType<'a>, x2: NodesType<'a>, x3: ValueType<'a>, x4: LogicalType) -> NodesType<'a> {
        A::n("f_vvnvl_n", vec![A::V(x0), A::V(x1), A::N(x2), A::V(x3), A::L(x4)])
    }
    #[serde_json_path::function]
    pub fn f_lvnvn_v<'a>(x0: LogicalType, x1: ValueType<'a>, x2: NodesType<'a>, x3: ValueType<'a>, x4: NodesType<'a>) -> ValueType<'a> {
        A::v("f_lvnvn_v", vec![A::L(x0), A::V(x1), A::N(x2), A::V(x3), A::N(x4)])
    }
    #[serde_json_path::function(name = "f_lnnvv_l")]
    pub(crate) fn rust_name_130<'a>(x0: LogicalType, x1: super::NodesType<'a>, x2: super::NodesType<'a>, x3: super::ValueType<'a>, x4: super::ValueType<'a>) -> LogicalType {
        A::l("f_lnnvv_l", vec![A::L(x0), A::N(x1), A::N(x2), A::V(x3), A::V(x4)])
    }
    #[serde_json_path::function]
    fn f_nnnvl_n<'a>(x0: serde_json_path::functions::NodesType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::NodesType<'a>, x3: serde_json_path::functions::ValueType<'a>, x4: LogicalType) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_nnnvl_n", vec![A::N(x0), A::N(x1), A::N(x2), A::V(x3), A::L(x4)])
    }
    /// documented
    #[serde_json_path::function(name = "n132vnnvnv")]
    fn rust_name_132<'a>(x0: ValueType<'a>, x1: NodesType<'a>, x2: NodesType<'a>, x3: ValueType<'a>, x4: NodesType<'a>, x5: ValueType<'a>) -> ValueType<'a> {
        A::v("n132vnnvnv", vec![A::V(x0), A::N(x1), A::N(x2), A::V(x3), A::N(x4), A::V(x5)])
    }
    #[serde_json_path::function(name = "f_nvlnnl_l")]
    pub fn rust_name_133<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: LogicalType, x3: NodesType<'a>, x4: NodesType<'a>, x5: LogicalType) -> LogicalType {
        A::l("f_nvlnnl_l", vec![A::N(x0), A::V(x1), A::L(x2), A::N(x3), A::N(x4), A::L(x5)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_llnlll_n<'a>(x0: LogicalType, x1: LogicalType, x2: super::NodesType<'a>, x3: LogicalType, x4: LogicalType, x5: LogicalType) -> super::NodesType<'a> {
        A::n("f_llnlll_n", vec![A::L(x0), A::L(x1), A::N(x2), A::L(x3), A::L(x4), A::L(x5)])
    }
    #[serde_json_path::function]
    fn f_vvnvvn_v<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::NodesType<'a>, x3: serde_json_path::functions::ValueType<'a>, x4: serde_json_path::functions::ValueType<'a>, x5: serde_json_path::functions::NodesType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("f_vvnvvn_v", vec![A::V(x0), A::V(x1), A::N(x2), A::V(x3), A::V(x4), A::N(x5)])
    }
    #[serde_json_path::function(name = "f_lnllnl_l")]
    fn rust_name_136<'a>(x0: LogicalType, x1: NodesType<'a>, x2: LogicalType, x3: LogicalType, x4: NodesType<'a>, x5: LogicalType) -> LogicalType {
        A::l("f_lnllnl_l", vec![A::L(x0), A::N(x1), A::L(x2), A::L(x3), A::N(x4), A::L(x5)])
    }
    #[serde_json_path::function(name = "n137lnvvnl")]
    pub fn rust_name_137<'a>(x0: LogicalType, x1: NodesType<'a>, x2: ValueType<'a>, x3: ValueType<'a>, x4: NodesType<'a>, x5: LogicalType) -> NodesType<'a> {
        A::n("n137lnvvnl", vec![A::L(x0), A::N(x1), A::V(x2), A::V(x3), A::N(x4), A::L(x5)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_vlvllvn_v<'a>(x0: super::ValueType<'a>, x1: LogicalType, x2: super::ValueType<'a>, x3: LogicalType, x4: LogicalType, x5: super::ValueType<'a>, x6: super::NodesType<'a>) -> super::ValueType<'a> {
        A::v("f_vlvllvn_v", vec![A::V(x0), A::L(x1), A::V(x2), A::L(x3), A::L(x4), A::V(x5), A::N(x6)])
    }
    #[serde_json_path::function(name = "f_vnnllnl_l")]
    fn rust_name_139<'a>(x0: serde_json_path::functions::ValueType<'a>, x1: serde_json_path::functions::NodesType<'a>, x2: serde_json_path::functions::NodesType<'a>, x3: LogicalType, x4: LogicalType, x5: serde_json_path::functions::NodesType<'a>, x6: LogicalType) -> LogicalType {
        A::l("f_vnnllnl_l", vec![A::V(x0), A::N(x1), A::N(x2), A::L(x3), A::L(x4), A::N(x5), A::L(x6)])
    }
    #[serde_json_path::function]
    fn f_nlnlvvl_n<'a>(x0: NodesType<'a>, x1: LogicalType, x2: NodesType<'a>, x3: LogicalType, x4: ValueType<'a>, x5: ValueType<'a>, x6: LogicalType) -> NodesType<'a> {
        A::n("f_nlnlvvl_n", vec![A::N(x0), A::L(x1), A::N(x2), A::L(x3), A::V(x4), A::V(x5), A::L(x6)])
    }
    #[serde_json_path::function]
    pub fn f_lnnvvnn_v<'a>(x0: LogicalType, x1: NodesType<'a>, x2: NodesType<'a>, x3: ValueType<'a>, x4: ValueType<'a>, x5: NodesType<'a>, x6: NodesType<'a>) -> ValueType<'a> {
        A::v("f_lnnvvnn_v", vec![A::L(x0), A::N(x1), A::N(x2), A::V(x3), A::V(x4), A::N(x5), A::N(x6)])
    }
    #[serde_json_path::function(name = "n142lnnnlln")]
    pub(crate) fn rust_name_142<'a>(x0: LogicalType, x1: super::NodesType<'a>, x2: super::NodesType<'a>, x3: super::NodesType<'a>, x4: LogicalType, x5: LogicalType, x6: super::NodesType<'a>) -> LogicalType {
        A::l("n142lnnnlln", vec![A::L(x0), A::N(x1), A::N(x2), A::N(x3), A::L(x4), A::L(x5), A::N(x6)])
    }
    #[serde_json_path::function]
    fn f_lnlvllv_n<'a>(x0: LogicalType, x1: serde_json_path::functions::NodesType<'a>, x2: LogicalType, x3: serde_json_path::functions::ValueType<'a>, x4: LogicalType, x5: LogicalType, x6: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_lnlvllv_n", vec![A::L(x0), A::N(x1), A::L(x2), A::V(x3), A::L(x4), A::L(x5), A::V(x6)])
    }
    /// documented
    #[serde_json_path::function]
    fn f_nvlvvlvn_v<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: LogicalType, x3: ValueType<'a>, x4: ValueType<'a>, x5: LogicalType, x6: ValueType<'a>, x7: NodesType<'a>) -> ValueType<'a> {
        A::v("f_nvlvvlvn_v", vec![A::N(x0), A::V(x1), A::L(x2), A::V(x3), A::V(x4), A::L(x5), A::V(x6), A::N(x7)])
    }
    #[serde_json_path::function(name = "f_vlllvvll_l")]
    pub fn rust_name_145<'a>(x0: ValueType<'a>, x1: LogicalType, x2: LogicalType, x3: LogicalType, x4: ValueType<'a>, x5: ValueType<'a>, x6: LogicalType, x7: LogicalType) -> LogicalType {
        A::l("f_vlllvvll_l", vec![A::V(x0), A::L(x1), A::L(x2), A::L(x3), A::V(x4), A::V(x5), A::L(x6), A::L(x7)])
    }
    #[serde_json_path::function]
    pub(crate) fn f_nlvlnlnl_n<'a>(x0: super::NodesType<'a>, x1: LogicalType, x2: super::ValueType<'a>, x3: LogicalType, x4: super::NodesType<'a>, x5: LogicalType, x6: super::NodesType<'a>, x7: LogicalType) -> super::NodesType<'a> {
        A::n("f_nlvlnlnl_n", vec![A::N(x0), A::L(x1), A::V(x2), A::L(x3), A::N(x4), A::L(x5), A::N(x6), A::L(x7)])
    }
    #[serde_json_path::function(name = "n147lnlvvvvvv")]
    fn rust_name_147<'a>(x0: LogicalType, x1: serde_json_path::functions::NodesType<'a>, x2: LogicalType, x3: serde_json_path::functions::ValueType<'a>, x4: serde_json_path::functions::ValueType<'a>, x5: serde_json_path::functions::ValueType<'a>, x6: serde_json_path::functions::ValueType<'a>, x7: serde_json_path::functions::ValueType<'a>, x8: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::ValueType<'a> {
        A::v("n147lnlvvvvvv", vec![A::L(x0), A::N(x1), A::L(x2), A::V(x3), A::V(x4), A::V(x5), A::V(x6), A::V(x7), A::V(x8)])
    }
    #[serde_json_path::function(name = "f_nvvlnvllv_l")]
    fn rust_name_148<'a>(x0: NodesType<'a>, x1: ValueType<'a>, x2: ValueType<'a>, x3: LogicalType, x4: NodesType<'a>, x5: ValueType<'a>, x6: LogicalType, x7: LogicalType, x8: ValueType<'a>) -> LogicalType {
        A::l("f_nvvlnvllv_l", vec![A::N(x0), A::V(x1), A::V(x2), A::L(x3), A::N(x4), A::V(x5), A::L(x6), A::L(x7), A::V(x8)])
    }
    #[serde_json_path::function]
    pub fn f_vlnlnnlvn_n<'a>(x0: ValueType<'a>, x1: LogicalType, x2: NodesType<'a>, x3: LogicalType, x4: NodesType<'a>, x5: NodesType<'a>, x6: LogicalType, x7: ValueType<'a>, x8: NodesType<'a>) -> NodesType<'a> {
        A::n("f_vlnlnnlvn_n", vec![A::V(x0), A::L(x1), A::N(x2), A::L(x3), A::N(x4), A::N(x5), A::L(x6), A::V(x7), A::N(x8)])
    }
    /// documented
    #[serde_json_path::function]
    pub(crate) fn f_nnnnnvlnnlll_v<'a>(x0: super::NodesType<'a>, x1: super::NodesType<'a>, x2: super::NodesType<'a>, x3: super::NodesType<'a>, x4: super::NodesType<'a>, x5: super::ValueType<'a>, x6: LogicalType, x7: super::NodesType<'a>, x8: super::NodesType<'a>, x9: LogicalType, x10: LogicalType, x11: LogicalType) -> super::ValueType<'a> {
        A::v("f_nnnnnvlnnlll_v", vec![A::N(x0), A::N(x1), A::N(x2), A::N(x3), A::N(x4), A::V(x5), A::L(x6), A::N(x7), A::N(x8), A::L(x9), A::L(x10), A::L(x11)])
    }
    #[serde_json_path::function(name = "f_lvlnlvvvvlvv_l")]
    fn rust_name_151<'a>(x0: LogicalType, x1: serde_json_path::functions::ValueType<'a>, x2: LogicalType, x3: serde_json_path::functions::NodesType<'a>, x4: LogicalType, x5: serde_json_path::functions::ValueType<'a>, x6: serde_json_path::functions::ValueType<'a>, x7: serde_json_path::functions::ValueType<'a>, x8: serde_json_path::functions::ValueType<'a>, x9: LogicalType, x10: serde_json_path::functions::ValueType<'a>, x11: serde_json_path::functions::ValueType<'a>) -> LogicalType {
        A::l("f_lvlnlvvvvlvv_l", vec![A::L(x0), A::V(x1), A::L(x2), A::N(x3), A::L(x4), A::V(x5), A::V(x6), A::V(x7), A::V(x8), A::L(x9), A::V(x10), A::V(x11)])
    }
    #[serde_json_path::function(name = "n152lnvvvnvnvlnv")]
    fn rust_name_152<'a>(x0: LogicalType, x1: NodesType<'a>, x2: ValueType<'a>, x3: ValueType<'a>, x4: ValueType<'a>, x5: NodesType<'a>, x6: ValueType<'a>, x7: NodesType<'a>, x8: ValueType<'a>, x9: LogicalType, x10: NodesType<'a>, x11: ValueType<'a>) -> NodesType<'a> {
        A::n("n152lnvvvnvnvlnv", vec![A::L(x0), A::N(x1), A::V(x2), A::V(x3), A::V(x4), A::N(x5), A::V(x6), A::N(x7), A::V(x8), A::L(x9), A::N(x10), A::V(x11)])
    }
    #[serde_json_path::function]
    pub fn f_vvnlvnllnllvvlll_v<'a>(x0: ValueType<'a>, x1: ValueType<'a>, x2: NodesType<'a>, x3: LogicalType, x4: ValueType<'a>, x5: NodesType<'a>, x6: LogicalType, x7: LogicalType, x8: NodesType<'a>, x9: LogicalType, x10: LogicalType, x11: ValueType<'a>, x12: ValueType<'a>, x13: LogicalType, x14: LogicalType, x15: LogicalType) -> ValueType<'a> {
        A::v("f_vvnlvnllnllvvlll_v", vec![A::V(x0), A::V(x1), A::N(x2), A::L(x3), A::V(x4), A::N(x5), A::L(x6), A::L(x7), A::N(x8), A::L(x9), A::L(x10), A::V(x11), A::V(x12), A::L(x13), A::L(x14), A::L(x15)])
    }
    #[serde_json_path::function(name = "f_llvvvnlnllnvnvvn_l")]
    pub(crate) fn rust_name_154<'a>(x0: LogicalType, x1: LogicalType, x2: super::ValueType<'a>, x3: super::ValueType<'a>, x4: super::ValueType<'a>, x5: super::NodesType<'a>, x6: LogicalType, x7: super::NodesType<'a>, x8: LogicalType, x9: LogicalType, x10: super::NodesType<'a>, x11: super::ValueType<'a>, x12: super::NodesType<'a>, x13: super::ValueType<'a>, x14: super::ValueType<'a>, x15: super::NodesType<'a>) -> LogicalType {
        A::l("f_llvvvnlnllnvnvvn_l", vec![A::L(x0), A::L(x1), A::V(x2), A::V(x3), A::V(x4), A::N(x5), A::L(x6), A::N(x7), A::L(x8), A::L(x9), A::N(x10), A::V(x11), A::N(x12), A::V(x13), A::V(x14), A::N(x15)])
    }
    #[serde_json_path::function]
    fn f_lvnnvnlnvnlnlvlv_n<'a>(x0: LogicalType, x1: serde_json_path::functions::ValueType<'a>, x2: serde_json_path::functions::NodesType<'a>, x3: serde_json_path::functions::NodesType<'a>, x4: serde_json_path::functions::ValueType<'a>, x5: serde_json_path::functions::NodesType<'a>, x6: LogicalType, x7: serde_json_path::functions::NodesType<'a>, x8: serde_json_path::functions::ValueType<'a>, x9: serde_json_path::functions::NodesType<'a>, x10: LogicalType, x11: serde_json_path::functions::NodesType<'a>, x12: LogicalType, x13: serde_json_path::functions::ValueType<'a>, x14: LogicalType, x15: serde_json_path::functions::ValueType<'a>) -> serde_json_path::functions::NodesType<'a> {
        A::n("f_lvnnvnlnvnlnlvlv_n", vec![A::L(x0), A::V(x1), A::N(x2), A::N(x3), A::V(x4), A::N(x5), A::L(x6), A::N(x7), A::V(x8), A::N(x9), A::L(x10), A::N(x11), A::L(x12), A::V(x13), A::L(x14), A::V(x15)])
    }
}
#[cfg(feature = "functions")]
#[allow(unused_imports)]
use serde_json_path::functions::{LogicalType, NodesType, ValueType};
