//! GENERATED by tools/gen_registry.py: every public numerical function of the library, callable uniformly.
use crate::ea::C;
use qcd_sme::qcd::FieldConfig;
use qcd_sme::Integral;
pub struct Ctx<'a> {
    pub a: &'a [C],
    pub integral: Integral,
    pub cfg: &'a FieldConfig,
}
pub type Call = fn(&Ctx) -> C;
/// mask: bit i set when argument i is passed as a complex number
pub struct Var {
    pub mask: u32,
    pub f: Call,
}
pub struct Fun {
    pub name: &'static str,
    pub args: &'static [&'static str],
    pub real_out: bool,
    pub vars: &'static [Var],
}
pub struct Ffi {
    pub name: &'static str,
    pub native: usize,
    pub mask: u32,
    pub f: Call,
}
trait IntoC {
    fn c(self) -> C;
}
impl IntoC for f64 {
    #[inline]
    fn c(self) -> C {
        C::new(self, 0.)
    }
}
impl IntoC for C {
    #[inline]
    fn c(self) -> C {
        self
    }
}
pub static FUNS:&[Fun]=&[
Fun{name:"common::energy_squared",args:&["p","m"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::energy_squared(c.a[0].re,c.a[1].re).c()},Var{mask:2,f:|c|qcd_sme::common::energy_squared(c.a[0].re,c.a[1]).c()}]},
Fun{name:"common::energy",args:&["p","m"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::energy(c.a[0].re,c.a[1].re).c()},Var{mask:2,f:|c|qcd_sme::common::energy(c.a[0].re,c.a[1]).c()}]},
Fun{name:"common::thermal::fermi_momentum",args:&["m","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::fermi_momentum(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"common::thermal::fermi_distribution",args:&["en","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::fermi_distribution(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:5,f:|c|qcd_sme::common::thermal::fermi_distribution(c.a[0],c.a[1].re,c.a[2]).c()}]},
Fun{name:"common::thermal::fermi_distribution_zero_temp",args:&["en","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::fermi_distribution_zero_temp(c.a[0].re,c.a[1].re).c()},Var{mask:3,f:|c|qcd_sme::common::thermal::fermi_distribution_zero_temp(c.a[0],c.a[1]).c()}]},
Fun{name:"common::thermal::fermi_distribution_double",args:&["en","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::fermi_distribution_double(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:5,f:|c|qcd_sme::common::thermal::fermi_distribution_double(c.a[0],c.a[1].re,c.a[2]).c()}]},
Fun{name:"common::thermal::fermi_distribution_double_zero_temp",args:&["en","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::fermi_distribution_double_zero_temp(c.a[0].re,c.a[1].re).c()},Var{mask:3,f:|c|qcd_sme::common::thermal::fermi_distribution_double_zero_temp(c.a[0],c.a[1]).c()}]},
Fun{name:"common::thermal::fermi_distribution_zero_chempot",args:&["en","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::fermi_distribution_zero_chempot(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::common::thermal::fermi_distribution_zero_chempot(c.a[0],c.a[1].re).c()}]},
Fun{name:"common::thermal::bose_distribution",args:&["en","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::bose_distribution(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:5,f:|c|qcd_sme::common::thermal::bose_distribution(c.a[0],c.a[1].re,c.a[2]).c()}]},
Fun{name:"common::thermal::bose_distribution_zero_chempot",args:&["en","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::common::thermal::bose_distribution_zero_chempot(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::common::thermal::bose_distribution_zero_chempot(c.a[0],c.a[1].re).c()}]},
Fun{name:"low_level::common::statistic_distribution_exponential",args:&["en","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::common::statistic_distribution_exponential(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:5,f:|c|qcd_sme::low_level::common::statistic_distribution_exponential(c.a[0],c.a[1].re,c.a[2]).c()}]},
Fun{name:"low_level::common::statistic_distribution_exponential_zero_chempot",args:&["en","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(c.a[0],c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::ghost::g_sep",args:&["s","ln_s","ln_s_pl_1"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::ghost::g_sep(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:7,f:|c|qcd_sme::low_level::oneloop::ghost::g_sep(c.a[0],c.a[1],c.a[2]).c()}]},
Fun{name:"low_level::oneloop::ghost::g",args:&["s"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::ghost::g(c.a[0].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::ghost::g(c.a[0]).c()}]},
Fun{name:"low_level::oneloop::ghost::g_xi_sep",args:&["ln_s"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::ghost::g_xi_sep(c.a[0].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::ghost::g_xi_sep(c.a[0]).c()}]},
Fun{name:"low_level::oneloop::ghost::g_xi",args:&["s"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::ghost::g_xi(c.a[0].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::ghost::g_xi(c.a[0]).c()}]},
Fun{name:"low_level::oneloop::ghost::dressing_inv_landau_sep",args:&["s","ln_s","ln_s_pl_1","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:7,f:|c|qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(c.a[0],c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::ghost::dressing_inv_sep",args:&["s","ln_s","ln_s_pl_1","g0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:7,f:|c|qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(c.a[0],c.a[1],c.a[2],c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::gluon::f_sep",args:&["s","ln_s","ln_s_pl_1"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::f_sep(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:7,f:|c|qcd_sme::low_level::oneloop::gluon::f_sep(c.a[0],c.a[1],c.a[2]).c()}]},
Fun{name:"low_level::oneloop::gluon::f",args:&["s"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::f(c.a[0].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::gluon::f(c.a[0]).c()}]},
Fun{name:"low_level::oneloop::gluon::f_xi_sep",args:&["s","ln_s","ln_s_pl_1"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::f_xi_sep(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:7,f:|c|qcd_sme::low_level::oneloop::gluon::f_xi_sep(c.a[0],c.a[1],c.a[2]).c()}]},
Fun{name:"low_level::oneloop::gluon::f_xi",args:&["s"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::f_xi(c.a[0].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::gluon::f_xi(c.a[0]).c()}]},
Fun{name:"low_level::oneloop::gluon::f_q",args:&["s"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::f_q(c.a[0].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::gluon::f_q(c.a[0]).c()}]},
Fun{name:"low_level::oneloop::gluon::f_q_crossed",args:&["s"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::f_q_crossed(c.a[0].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::gluon::f_q_crossed(c.a[0]).c()}]},
Fun{name:"low_level::oneloop::gluon::ym_dressing_inv_landau_sep",args:&["s","ln_s","ln_s_pl_1","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:7,f:|c|qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(c.a[0],c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::gluon::ym_dressing_inv_sep",args:&["s","ln_s","ln_s_pl_1","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:7,f:|c|qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(c.a[0],c.a[1],c.a[2],c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog",args:&["q","om","p","en","delta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::tlog(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4]).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_same_mass",args:&["q","om","p","en"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3]).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_zero_mass",args:&["q","om","p"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_l",args:&["q","om","p","en","delta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4]).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_l_same_mass",args:&["q","om","p","en"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:10,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3]).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_l_zero_mass",args:&["q","om","p"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_t",args:&["q","om","p","en","delta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4]).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_t_same_mass",args:&["q","om","p","en"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:10,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3]).c()}]},
Fun{name:"low_level::oneloop::thermal::tlog_t_zero_mass",args:&["q","om","p"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::j_m_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::j_m_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::j_m_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::j_0_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::j_0_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::j_m_l_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::j_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::j_m_l_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::j_0_l_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::j_0_l_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::j_m_t_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::j_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::j_m_t_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::j_0_t_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::j_0_t_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_m_i",args:&["q","om","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4],c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_m_i_same_mass",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_0_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_0_0_i",args:&["q","om","p","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_0_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_0_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_m_l_i",args:&["q","om","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4],c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_m_l_i_same_mass",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_0_l_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_0_0_l_i",args:&["q","om","p","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_m_t_i",args:&["q","om","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4],c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_m_t_i_same_mass",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:10,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_m_0_t_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:10,f:|c|qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::i_0_0_t_i",args:&["q","om","p","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_j_m_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_m_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_m_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_j_0_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_0_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d2_j_m_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_m_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_m_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d2_j_0_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_0_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_j_m_l_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_j_0_l_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_0_l_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d2_j_m_l_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d2_j_0_l_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_0_l_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_j_m_t_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_j_0_t_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_j_0_t_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d2_j_m_t_i",args:&["q","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d2_j_0_t_i",args:&["q","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d2_j_0_t_i(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_m_i",args:&["q","om","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4],c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_m_i_same_mass",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_0_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_0_0_i",args:&["q","om","p","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_m_l_i",args:&["q","om","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4],c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_m_l_i_same_mass",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_0_l_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_0_0_l_i",args:&["q","om","p","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_m_t_i",args:&["q","om","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:26,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4],c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_m_t_i_same_mass",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:10,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_t_0_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:10,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_m_0_t_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:10,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::d_i_0_0_t_i",args:&["q","om","p","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::tlog",args:&["q","p","delta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(c.a[0].re,c.a[1].re,c.a[2]).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::tlog_same_mass",args:&["q","p"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_same_mass(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass",args:&["q","p"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::tlog_t",args:&["q","p","delta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(c.a[0].re,c.a[1].re,c.a[2]).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass",args:&["q","p"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass",args:&["q","p"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_m_i",args:&["q","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:12,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_0_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_0_0_i",args:&["q","p","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_i(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i",args:&["q","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:12,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i",args:&["q","p","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i",args:&["q","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:12,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i",args:&["q","p","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i",args:&["q","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:12,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i",args:&["q","p","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i",args:&["q","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:12,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i",args:&["q","p","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i",args:&["q","p","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:12,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:4,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i",args:&["q","p","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_m_i",args:&["q","om","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_0_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_0_0_i",args:&["q","om","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_m_l_i",args:&["q","om","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_0_l_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_0_0_l_i",args:&["q","om","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_m_t_i",args:&["q","om","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_m_0_t_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::i_0_0_t_i",args:&["q","om","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_m_i",args:&["q","om","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_0_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_0_0_i",args:&["q","om","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i",args:&["q","om","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i",args:&["q","om","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i",args:&["q","om","m1","m2","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:14,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(c.a[0].re,c.a[1],c.a[2],c.a[3],c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()},Var{mask:6,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(c.a[0].re,c.a[1],c.a[2],c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i",args:&["q","om","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(c.a[0].re,c.a[1],c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method",args:&["om","p","m","beta","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau",args:&["om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method",args:&["p","m","beta","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau",args:&["p","m","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method",args:&["om","m","beta","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau",args:&["om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i",args:&["q","om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i",args:&["q","om","p","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i",args:&["q","om","p","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i",args:&["q","om","p","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i",args:&["q","om","p","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method",args:&["om","p","m","beta","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:3,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method",args:&["om","p","m","beta","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method",args:&["om","p","mq","beta","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.integral).c()},Var{mask:3,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method",args:&["om","p","mq","beta","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method",args:&["om","p","mq","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:3,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method",args:&["om","p","mq","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau",args:&["om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:3,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(c.a[0],c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau",args:&["om","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau",args:&["om","p","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:3,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau",args:&["om","p","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau",args:&["om","p","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:3,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(c.a[0],c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau",args:&["om","p","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i",args:&["q","p","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i",args:&["q","p","mq","beta","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i",args:&["q","p","mq","beta","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i",args:&["q","p","mq","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i",args:&["q","p","mq","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method",args:&["p","m","beta","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method",args:&["p","m","beta","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method",args:&["p","mq","beta","mu","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method",args:&["p","mq","beta","mu","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method",args:&["p","mq","mu","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method",args:&["p","mq","mu","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau",args:&["p","m","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau",args:&["p","m","beta"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau",args:&["p","mq","beta","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau",args:&["p","mq","beta","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau",args:&["p","mq","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau",args:&["p","mq","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i",args:&["q","om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i",args:&["q","om","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i",args:&["q","om","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i",args:&["q","om","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i",args:&["q","om","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:2,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1],c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method",args:&["om","m","beta","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method",args:&["om","m","beta","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method",args:&["om","mq","beta","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method",args:&["om","mq","beta","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method",args:&["om","mq","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method",args:&["om","mq","mu","integral"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(c.a[0],c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau",args:&["om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau",args:&["om","m","beta"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau",args:&["om","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau",args:&["om","mq","beta","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau",args:&["om","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau",args:&["om","mq","mu"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"ym::ghost::dressing_inv_landau",args:&["s","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::ym::ghost::dressing_inv_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"ym::ghost::dressing_inv",args:&["s","g0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::ghost::dressing_inv(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::ym::ghost::dressing_inv(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"ym::ghost::dressing_landau",args:&["s","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::ghost::dressing_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::ym::ghost::dressing_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"ym::ghost::dressing",args:&["s","g0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::ghost::dressing(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::ym::ghost::dressing(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"ym::ghost::propagator_landau",args:&["s","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::ghost::propagator_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::ym::ghost::propagator_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"ym::ghost::propagator",args:&["s","g0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::ghost::propagator(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::ym::ghost::propagator(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"ym::gluon::dressing_inv_landau",args:&["s","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::gluon::dressing_inv_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::ym::gluon::dressing_inv_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"ym::gluon::dressing_inv",args:&["s","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::gluon::dressing_inv(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::ym::gluon::dressing_inv(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"ym::gluon::dressing_landau",args:&["s","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::gluon::dressing_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::ym::gluon::dressing_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"ym::gluon::dressing",args:&["s","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::gluon::dressing(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::ym::gluon::dressing(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"ym::gluon::propagator_landau",args:&["s","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::gluon::propagator_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::ym::gluon::propagator_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"ym::gluon::propagator",args:&["s","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::gluon::propagator(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::ym::gluon::propagator(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"ym::thermal::ghost::dressing_inv_landau",args:&["om","p","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::ghost::dressing_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::ghost::dressing_landau",args:&["om","p","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::ghost::dressing_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::ghost::propagator_landau",args:&["om","p","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::ghost::propagator_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::gluon::dressing_l_inv_landau",args:&["om","p","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::gluon::dressing_t_inv_landau",args:&["om","p","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::gluon::dressing_l_landau",args:&["om","p","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::gluon::dressing_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::gluon::dressing_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::gluon::dressing_t_landau",args:&["om","p","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::gluon::dressing_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::gluon::dressing_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::gluon::propagator_l_landau",args:&["om","p","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::gluon::propagator_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::gluon::propagator_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::gluon::propagator_t_landau",args:&["om","p","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::gluon::propagator_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::gluon::propagator_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::ghost::dressing_inv_landau",args:&["p","m","beta","g0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::ghost::dressing_landau",args:&["p","m","beta","g0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::ghost::propagator_landau",args:&["p","m","beta","g0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::ghost::propagator_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau",args:&["p","m","beta","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau",args:&["p","m","beta","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::gluon::dressing_l_landau",args:&["p","m","beta","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::gluon::dressing_t_landau",args:&["p","m","beta","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::gluon::propagator_l_landau",args:&["p","m","beta","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_matsubara::gluon::propagator_t_landau",args:&["p","m","beta","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::ghost::dressing_inv_landau",args:&["om","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::ghost::dressing_landau",args:&["om","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::ghost::propagator_landau",args:&["om","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::gluon::dressing_l_inv_landau",args:&["om","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::gluon::dressing_t_inv_landau",args:&["om","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::gluon::dressing_l_landau",args:&["om","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::gluon::dressing_t_landau",args:&["om","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::gluon::propagator_l_landau",args:&["om","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"ym::thermal::zero_momentum::gluon::propagator_t_landau",args:&["om","m","beta","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_inv_landau",args:&["om","p","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_inv_landau",args:&["om","p","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_landau",args:&["om","p","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_landau",args:&["om","p","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_l_landau",args:&["om","p","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_t_landau",args:&["om","p","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re,c.a[6].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_inv_zero_temp_landau",args:&["om","p","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_inv_zero_temp_landau",args:&["om","p","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_zero_temp_landau",args:&["om","p","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_zero_temp_landau",args:&["om","p","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_l_zero_temp_landau",args:&["om","p","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_t_zero_temp_landau",args:&["om","p","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_inv_landau_w_field_config",args:&["om","p","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:3,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_inv_landau_w_field_config",args:&["om","p","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_landau_w_field_config",args:&["om","p","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:3,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_landau_w_field_config",args:&["om","p","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_l_landau_w_field_config",args:&["om","p","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:3,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_t_landau_w_field_config",args:&["om","p","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config",args:&["om","p","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:3,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config",args:&["om","p","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config",args:&["om","p","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:3,f:|c|qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config",args:&["om","p","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config",args:&["om","p","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:3,f:|c|qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(c.a[0],c.a[1],c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config",args:&["om","p","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::quark::charge_density_with_method",args:&["m","beta","mu","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::quark::charge_density_with_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"qcd::thermal::quark::charge_density",args:&["m","beta","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::quark::charge_density(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::thermal::quark::charge_density_zero_temp",args:&["m","mu"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::quark::charge_density_zero_temp(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"qcd::thermal::quark::chemical_potential_with_method",args:&["m","beta","n","integral"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::quark::chemical_potential_with_method(c.a[0].re,c.a[1].re,c.a[2].re,c.integral).c()}]},
Fun{name:"qcd::thermal::quark::chemical_potential",args:&["m","beta","n"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::quark::chemical_potential(c.a[0].re,c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::thermal::quark::chemical_potential_zero_temp",args:&["m","n"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::quark::chemical_potential_zero_temp(c.a[0].re,c.a[1].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau",args:&["p","m","mq","beta","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau",args:&["p","m","mq","beta","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_landau",args:&["p","m","mq","beta","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_landau",args:&["p","m","mq","beta","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_l_landau",args:&["p","m","mq","beta","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_t_landau",args:&["p","m","mq","beta","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau",args:&["p","m","mq","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau",args:&["p","m","mq","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau",args:&["p","m","mq","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau",args:&["p","m","mq","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau",args:&["p","m","mq","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau",args:&["p","m","mq","mu","f0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config",args:&["p","beta","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config",args:&["p","beta","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config",args:&["p","beta","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config",args:&["p","beta","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config",args:&["p","beta","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config",args:&["p","beta","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config",args:&["p","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config",args:&["p","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config",args:&["p","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config",args:&["p","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config",args:&["p","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config",args:&["p","mu","f0","config"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau",args:&["om","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau",args:&["om","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_landau",args:&["om","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_landau",args:&["om","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_l_landau",args:&["om","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_t_landau",args:&["om","m","mq","beta","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re,c.a[5].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau",args:&["om","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau",args:&["om","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau",args:&["om","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau",args:&["om","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau",args:&["om","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau",args:&["om","m","mq","mu","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config",args:&["om","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config",args:&["om","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config",args:&["om","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config",args:&["om","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config",args:&["om","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config",args:&["om","beta","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config",args:&["om","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config",args:&["om","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config",args:&["om","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config",args:&["om","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config",args:&["om","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config",args:&["om","mu","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_inv_landau",args:&["s","mq","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_inv_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::gluon::dressing_inv",args:&["s","mq","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_inv(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_inv(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::gluon::dressing_landau",args:&["s","mq","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::gluon::dressing",args:&["s","mq","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::gluon::propagator_landau",args:&["s","mq","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::gluon::propagator",args:&["s","mq","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::gluon::dressing_crossed_inv_landau",args:&["s","mq","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::gluon::dressing_crossed_inv",args:&["s","mq","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::gluon::dressing_crossed_landau",args:&["s","mq","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::gluon::dressing_crossed",args:&["s","mq","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::gluon::propagator_crossed_landau",args:&["s","mq","f0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator_crossed_landau(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator_crossed_landau(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::gluon::propagator_crossed",args:&["s","mq","f0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator_crossed(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator_crossed(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::gluon::dressing_inv_landau_w_field_config",args:&["s","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(c.a[0],c.a[1].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_inv_w_field_config",args:&["s","f0","xi","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_inv_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_inv_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_landau_w_field_config",args:&["s","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_landau_w_field_config(c.a[0].re,c.a[1].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_landau_w_field_config(c.a[0],c.a[1].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_w_field_config",args:&["s","f0","xi","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::propagator_landau_w_field_config",args:&["s","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator_landau_w_field_config(c.a[0].re,c.a[1].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator_landau_w_field_config(c.a[0],c.a[1].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::propagator_w_field_config",args:&["s","f0","xi","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_crossed_inv_landau_w_field_config",args:&["s","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(c.a[0].re,c.a[1].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(c.a[0],c.a[1].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_crossed_inv_w_field_config",args:&["s","f0","xi","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_crossed_landau_w_field_config",args:&["s","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(c.a[0].re,c.a[1].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(c.a[0],c.a[1].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::dressing_crossed_w_field_config",args:&["s","f0","xi","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::dressing_crossed_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::dressing_crossed_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::propagator_crossed_landau_w_field_config",args:&["s","f0","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(c.a[0].re,c.a[1].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(c.a[0],c.a[1].re,c.cfg).c()}]},
Fun{name:"qcd::gluon::propagator_crossed_w_field_config",args:&["s","f0","xi","config"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::gluon::propagator_crossed_w_field_config(c.a[0].re,c.a[1].re,c.a[2].re,c.cfg).c()},Var{mask:1,f:|c|qcd_sme::qcd::gluon::propagator_crossed_w_field_config(c.a[0],c.a[1].re,c.a[2].re,c.cfg).c()}]},
Fun{name:"qcd::ghost::dressing_inv_landau",args:&["s","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::ghost::dressing_inv_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"qcd::ghost::dressing_inv",args:&["s","g0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::ghost::dressing_inv(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::ghost::dressing_inv(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::ghost::dressing_landau",args:&["s","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::ghost::dressing_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::ghost::dressing_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"qcd::ghost::dressing",args:&["s","g0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::ghost::dressing(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::ghost::dressing(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::ghost::propagator_landau",args:&["s","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::ghost::propagator_landau(c.a[0].re,c.a[1].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::ghost::propagator_landau(c.a[0],c.a[1].re).c()}]},
Fun{name:"qcd::ghost::propagator",args:&["s","g0","xi"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::ghost::propagator(c.a[0].re,c.a[1].re,c.a[2].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::ghost::propagator(c.a[0],c.a[1].re,c.a[2].re).c()}]},
Fun{name:"qcd::thermal::ghost::dressing_inv_landau",args:&["om","p","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::ghost::dressing_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::ghost::dressing_landau",args:&["om","p","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::ghost::dressing_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::ghost::propagator_landau",args:&["om","p","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::ghost::propagator_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::ghost::dressing_inv_landau",args:&["p","m","beta","g0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::ghost::dressing_landau",args:&["p","m","beta","g0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::ghost::dressing_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::thermal::zero_matsubara::ghost::propagator_landau",args:&["p","m","beta","g0"],real_out:true,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_matsubara::ghost::propagator_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::ghost::dressing_inv_landau",args:&["om","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_inv_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::ghost::dressing_landau",args:&["om","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::ghost::dressing_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
Fun{name:"qcd::thermal::zero_momentum::ghost::propagator_landau",args:&["om","m","beta","g0"],real_out:false,vars:&[Var{mask:0,f:|c|qcd_sme::qcd::thermal::zero_momentum::ghost::propagator_landau(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()},Var{mask:1,f:|c|qcd_sme::qcd::thermal::zero_momentum::ghost::propagator_landau(c.a[0],c.a[1].re,c.a[2].re,c.a[3].re).c()}]},
];
pub static FFI: &[Ffi] = &[
    Ffi {
        name: "energy_squared",
        native: 0,
        mask: 0,
        f: |c| qcd_sme::ffi::energy_squared(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "energy",
        native: 1,
        mask: 0,
        f: |c| qcd_sme::ffi::energy(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "fermi_momentum",
        native: 2,
        mask: 0,
        f: |c| qcd_sme::ffi::fermi_momentum(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "fermi_distribution",
        native: 3,
        mask: 0,
        f: |c| qcd_sme::ffi::fermi_distribution(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "fermi_distribution_zero_temp",
        native: 4,
        mask: 0,
        f: |c| qcd_sme::ffi::fermi_distribution_zero_temp(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "fermi_distribution_double",
        native: 5,
        mask: 0,
        f: |c| qcd_sme::ffi::fermi_distribution_double(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "fermi_distribution_double_zero_temp",
        native: 6,
        mask: 0,
        f: |c| qcd_sme::ffi::fermi_distribution_double_zero_temp(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "fermi_distribution_zero_chempot",
        native: 7,
        mask: 0,
        f: |c| qcd_sme::ffi::fermi_distribution_zero_chempot(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "bose_distribution",
        native: 8,
        mask: 0,
        f: |c| qcd_sme::ffi::bose_distribution(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "bose_distribution_zero_chempot",
        native: 9,
        mask: 0,
        f: |c| qcd_sme::ffi::bose_distribution_zero_chempot(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "statistic_distribution_exponential",
        native: 10,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::statistic_distribution_exponential(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "statistic_distribution_exponential_zero_chempot",
        native: 11,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::statistic_distribution_exponential_zero_chempot(c.a[0].re, c.a[1].re).c()
        },
    },
    Ffi {
        name: "oneloop__ghost__g_sep",
        native: 12,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__ghost__g_sep(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__ghost__g",
        native: 13,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__ghost__g(c.a[0].re).c(),
    },
    Ffi {
        name: "oneloop__ghost__g_sep__complex",
        native: 12,
        mask: 7,
        f: |c| qcd_sme::ffi::oneloop__ghost__g_sep__complex(c.a[0], c.a[1], c.a[2]).c(),
    },
    Ffi {
        name: "oneloop__ghost__g__complex",
        native: 13,
        mask: 1,
        f: |c| qcd_sme::ffi::oneloop__ghost__g__complex(c.a[0]).c(),
    },
    Ffi {
        name: "oneloop__ghost__g_xi_sep",
        native: 14,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__ghost__g_xi_sep(c.a[0].re).c(),
    },
    Ffi {
        name: "oneloop__ghost__g_xi",
        native: 15,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__ghost__g_xi(c.a[0].re).c(),
    },
    Ffi {
        name: "oneloop__ghost__g_xi_sep__complex",
        native: 14,
        mask: 1,
        f: |c| qcd_sme::ffi::oneloop__ghost__g_xi_sep__complex(c.a[0]).c(),
    },
    Ffi {
        name: "oneloop__ghost__g_xi__complex",
        native: 15,
        mask: 1,
        f: |c| qcd_sme::ffi::oneloop__ghost__g_xi__complex(c.a[0]).c(),
    },
    Ffi {
        name: "ym__oneloop__ghost__dressing_inv_landau_sep",
        native: 16,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "ym__oneloop__ghost__dressing_inv_landau_sep__complex",
        native: 16,
        mask: 7,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep__complex(
                c.a[0], c.a[1], c.a[2], c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "ym__oneloop__ghost__dressing_inv_sep",
        native: 17,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "ym__oneloop__ghost__dressing_inv_sep__complex",
        native: 17,
        mask: 7,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep__complex(
                c.a[0], c.a[1], c.a[2], c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__gluon__f_sep",
        native: 18,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_sep(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__gluon__f",
        native: 19,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__gluon__f(c.a[0].re).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_sep__complex",
        native: 18,
        mask: 7,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_sep__complex(c.a[0], c.a[1], c.a[2]).c(),
    },
    Ffi {
        name: "oneloop__gluon__f__complex",
        native: 19,
        mask: 1,
        f: |c| qcd_sme::ffi::oneloop__gluon__f__complex(c.a[0]).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_xi_sep",
        native: 20,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_xi_sep(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_xi",
        native: 21,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_xi(c.a[0].re).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_xi_sep__complex",
        native: 20,
        mask: 7,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_xi_sep__complex(c.a[0], c.a[1], c.a[2]).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_xi__complex",
        native: 21,
        mask: 1,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_xi__complex(c.a[0]).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_q",
        native: 22,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_q(c.a[0].re).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_q__complex",
        native: 22,
        mask: 1,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_q__complex(c.a[0]).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_q_crossed",
        native: 23,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_q_crossed(c.a[0].re).c(),
    },
    Ffi {
        name: "oneloop__gluon__f_q_crossed__complex",
        native: 23,
        mask: 1,
        f: |c| qcd_sme::ffi::oneloop__gluon__f_q_crossed__complex(c.a[0]).c(),
    },
    Ffi {
        name: "ym__oneloop__gluon__dressing_inv_landau_sep",
        native: 24,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "ym__oneloop__gluon__dressing_inv_landau_sep__complex",
        native: 24,
        mask: 7,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep__complex(
                c.a[0], c.a[1], c.a[2], c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "ym__oneloop__gluon__dressing_inv_sep",
        native: 25,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "ym__oneloop__gluon__dressing_inv_sep__complex",
        native: 25,
        mask: 7,
        f: |c| {
            qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep__complex(
                c.a[0], c.a[1], c.a[2], c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__tlog",
        native: 26,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__tlog(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re).c()
        },
    },
    Ffi {
        name: "oneloop__tlog_same_mass",
        native: 27,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__tlog_same_mass(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c()
        },
    },
    Ffi {
        name: "oneloop__tlog_zero_mass",
        native: 28,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__tlog_zero_mass(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__tlog_l",
        native: 29,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__tlog_l(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re).c()
        },
    },
    Ffi {
        name: "oneloop__tlog_l_same_mass",
        native: 30,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__tlog_l_same_mass(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c()
        },
    },
    Ffi {
        name: "oneloop__tlog_l_zero_mass",
        native: 31,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__tlog_l_zero_mass(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__tlog_t",
        native: 32,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__tlog_t(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re).c()
        },
    },
    Ffi {
        name: "oneloop__tlog_t_same_mass",
        native: 33,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__tlog_t_same_mass(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c()
        },
    },
    Ffi {
        name: "oneloop__tlog_t_zero_mass",
        native: 34,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__tlog_t_zero_mass(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__j_m_i",
        native: 35,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__j_m_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__j_0_i",
        native: 36,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__j_0_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__j_m_l_i",
        native: 37,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__j_m_l_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__j_0_l_i",
        native: 38,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__j_0_l_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__j_m_t_i",
        native: 39,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__j_m_t_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__j_0_t_i",
        native: 40,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__j_0_t_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__i_m_m_i",
        native: 41,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_m_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__i_m_m_i_same_mass",
        native: 42,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_m_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__i_m_0_i",
        native: 43,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_0_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re)
                .c()
        },
    },
    Ffi {
        name: "oneloop__i_0_0_i",
        native: 44,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__i_0_0_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "oneloop__i_m_m_l_i",
        native: 45,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_m_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__i_m_m_l_i_same_mass",
        native: 46,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_m_l_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__i_m_0_l_i",
        native: 47,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_0_l_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re)
                .c()
        },
    },
    Ffi {
        name: "oneloop__i_0_0_l_i",
        native: 48,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__i_0_0_l_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "oneloop__i_m_m_t_i",
        native: 49,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_m_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__i_m_m_t_i_same_mass",
        native: 50,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_m_t_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__i_m_0_t_i",
        native: 51,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__i_m_0_t_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re)
                .c()
        },
    },
    Ffi {
        name: "oneloop__i_0_0_t_i",
        native: 52,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__i_0_0_t_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "oneloop__d_j_m_i",
        native: 53,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_j_m_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__d_j_0_i",
        native: 54,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_j_0_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__d2_j_m_i",
        native: 55,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d2_j_m_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__d2_j_0_i",
        native: 56,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d2_j_0_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__d_j_m_l_i",
        native: 57,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_j_m_l_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__d_j_0_l_i",
        native: 58,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_j_0_l_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__d2_j_m_l_i",
        native: 59,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d2_j_m_l_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__d2_j_0_l_i",
        native: 60,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d2_j_0_l_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__d_j_m_t_i",
        native: 61,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_j_m_t_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__d_j_0_t_i",
        native: 62,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_j_0_t_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__d2_j_m_t_i",
        native: 63,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d2_j_m_t_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__d2_j_0_t_i",
        native: 64,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d2_j_0_t_i(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__d_i_m_m_i",
        native: 65,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_m_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_m_m_i_same_mass",
        native: 66,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_m_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_m_0_i",
        native: 67,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_0_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re)
                .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_0_0_i",
        native: 68,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_i_0_0_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "oneloop__d_i_m_m_l_i",
        native: 69,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_m_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_m_m_l_i_same_mass",
        native: 70,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_m_l_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_m_0_l_i",
        native: 71,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_0_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_0_0_l_i",
        native: 72,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_i_0_0_l_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "oneloop__d_i_m_m_t_i",
        native: 73,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_m_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_m_m_t_i_same_mass",
        native: 74,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_m_t_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_m_0_t_i",
        native: 76,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__d_i_m_0_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__d_i_0_0_t_i",
        native: 77,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__d_i_0_0_t_i(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__tlog",
        native: 78,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_matsubara__tlog(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__tlog_same_mass",
        native: 79,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_matsubara__tlog_same_mass(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__tlog_zero_mass",
        native: 80,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_matsubara__tlog_zero_mass(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__tlog_t",
        native: 81,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_matsubara__tlog_t(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__tlog_t_same_mass",
        native: 82,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_same_mass(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__tlog_t_zero_mass",
        native: 83,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_zero_mass(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_m_i",
        native: 84,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_m_i_same_mass",
        native: 85,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_0_i",
        native: 86,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_0_0_i",
        native: 87,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_m_l_i",
        native: 88,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_m_l_i_same_mass",
        native: 89,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_0_l_i",
        native: 90,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_0_0_l_i",
        native: 91,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_l_i(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_m_t_i",
        native: 92,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_m_t_i_same_mass",
        native: 93,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_m_0_t_i",
        native: 94,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__i_0_0_t_i",
        native: 95,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_t_i(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_m_i",
        native: 96,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_m_i_same_mass",
        native: 97,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_0_i",
        native: 98,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_0_0_i",
        native: 99,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_i(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_m_l_i",
        native: 100,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_m_l_i_same_mass",
        native: 101,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_0_l_i",
        native: 102,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_0_0_l_i",
        native: 103,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_l_i(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_m_t_i",
        native: 104,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_m_t_i_same_mass",
        native: 105,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_m_0_t_i",
        native: 107,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__d_i_0_0_t_i",
        native: 108,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_t_i(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_m_i",
        native: 109,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_m_i_same_mass",
        native: 110,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_0_i",
        native: 111,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_0_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_0_0_i",
        native: 112,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_momentum__i_0_0_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_m_l_i",
        native: 113,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_m_l_i_same_mass",
        native: 114,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_0_l_i",
        native: 115,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_0_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_0_0_l_i",
        native: 116,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_momentum__i_0_0_l_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_m_t_i",
        native: 117,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_m_t_i_same_mass",
        native: 118,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_m_0_t_i",
        native: 119,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__i_m_0_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__i_0_0_t_i",
        native: 120,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_momentum__i_0_0_t_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_m_i",
        native: 121,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_m_i_same_mass",
        native: 122,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_0_i",
        native: 123,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_0_0_i",
        native: 124,
        mask: 0,
        f: |c| qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_i(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_m_l_i",
        native: 125,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_m_l_i_same_mass",
        native: 126,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_0_l_i",
        native: 127,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_l_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_0_0_l_i",
        native: 128,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_l_i(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_m_t_i",
        native: 129,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_m_t_i_same_mass",
        native: 130,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i_same_mass(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_m_0_t_i",
        native: 131,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_t_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__d_i_0_0_t_i",
        native: 132,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_t_i(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "oneloop__ghost__self_energy_thermal_part_landau_i",
        native: 133,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__ghost__self_energy_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i",
        native: 136,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i",
        native: 139,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__gluon__polarization_glue_l_thermal_part_landau_i",
        native: 142,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__gluon__polarization_glue_l_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__gluon__polarization_glue_t_thermal_part_landau_i",
        native: 143,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__gluon__polarization_glue_t_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__gluon__polarization_quark_l_thermal_part_landau_i",
        native: 144,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__gluon__polarization_quark_t_thermal_part_landau_i",
        native: 145,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re, c.a[5].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i",
        native: 146,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i",
        native: 147,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i",
        native: 160,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i",
        native: 161,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i",
        native: 162,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i",
        native: 163,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re,c.a[4].re).c()
        },
    },
    Ffi {
        name:
            "oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i",
        native: 164,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()
        },
    },
    Ffi {
        name:
            "oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i",
        native: 165,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i",
        native: 178,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i",
        native: 179,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i",
        native: 180,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i",
        native: 181,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re, c.a[4].re,
            )
            .c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i",
        native: 182,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()
        },
    },
    Ffi {
        name: "oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i",
        native: 183,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(c.a[0].re,c.a[1].re,c.a[2].re,c.a[3].re).c()
        },
    },
    Ffi {
        name: "ym__ghost__dressing_inv_landau",
        native: 196,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__ghost__dressing_inv_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "ym__ghost__dressing_inv_landau__complex",
        native: 196,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__ghost__dressing_inv_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "ym__ghost__dressing_inv",
        native: 197,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__ghost__dressing_inv(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__ghost__dressing_inv__complex",
        native: 197,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__ghost__dressing_inv__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__ghost__dressing_landau",
        native: 198,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__ghost__dressing_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "ym__ghost__dressing_landau__complex",
        native: 198,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__ghost__dressing_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "ym__ghost__dressing",
        native: 199,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__ghost__dressing(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__ghost__dressing__complex",
        native: 199,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__ghost__dressing__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__ghost__propagator_landau",
        native: 200,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__ghost__propagator_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "ym__ghost__propagator_landau__complex",
        native: 200,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__ghost__propagator_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "ym__ghost__propagator",
        native: 201,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__ghost__propagator(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__ghost__propagator__complex",
        native: 201,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__ghost__propagator__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing_inv_landau",
        native: 202,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__gluon__dressing_inv_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing_inv_landau__complex",
        native: 202,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__gluon__dressing_inv_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing_inv",
        native: 203,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__gluon__dressing_inv(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing_inv__complex",
        native: 203,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__gluon__dressing_inv__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing_landau",
        native: 204,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__gluon__dressing_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing_landau__complex",
        native: 204,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__gluon__dressing_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing",
        native: 205,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__gluon__dressing(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__gluon__dressing__complex",
        native: 205,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__gluon__dressing__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__gluon__propagator_landau",
        native: 206,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__gluon__propagator_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "ym__gluon__propagator_landau__complex",
        native: 206,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__gluon__propagator_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "ym__gluon__propagator",
        native: 207,
        mask: 0,
        f: |c| qcd_sme::ffi::ym__gluon__propagator(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "ym__gluon__propagator__complex",
        native: 207,
        mask: 1,
        f: |c| qcd_sme::ffi::ym__gluon__propagator__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__gluon__dressing_inv_landau",
        native: 313,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__gluon__dressing_inv_landau(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__gluon__dressing_inv_landau__complex",
        native: 313,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_inv_landau__complex(c.a[0], c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_inv",
        native: 314,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_inv(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_inv__complex",
        native: 314,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_inv__complex(c.a[0], c.a[1].re, c.a[2].re, c.a[3].re)
                .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_landau",
        native: 315,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__gluon__dressing_landau(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__gluon__dressing_landau__complex",
        native: 315,
        mask: 1,
        f: |c| qcd_sme::ffi::qcd__gluon__dressing_landau__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__gluon__dressing",
        native: 316,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__gluon__dressing(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "qcd__gluon__dressing__complex",
        native: 316,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing__complex(c.a[0], c.a[1].re, c.a[2].re, c.a[3].re).c()
        },
    },
    Ffi {
        name: "qcd__gluon__propagator_landau",
        native: 317,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__gluon__propagator_landau(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__gluon__propagator_landau__complex",
        native: 317,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__propagator_landau__complex(c.a[0], c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "qcd__gluon__propagator",
        native: 318,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__gluon__propagator(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re).c(),
    },
    Ffi {
        name: "qcd__gluon__propagator__complex",
        native: 318,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__propagator__complex(c.a[0], c.a[1].re, c.a[2].re, c.a[3].re)
                .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed_inv_landau",
        native: 319,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau(c.a[0].re, c.a[1].re, c.a[2].re)
                .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed_inv_landau__complex",
        native: 319,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau__complex(
                c.a[0], c.a[1].re, c.a[2].re,
            )
            .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed_inv",
        native: 320,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed_inv(
                c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed_inv__complex",
        native: 320,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed_inv__complex(
                c.a[0], c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed_landau",
        native: 321,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed_landau(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed_landau__complex",
        native: 321,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed_landau__complex(c.a[0], c.a[1].re, c.a[2].re)
                .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed",
        native: 322,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re)
                .c()
        },
    },
    Ffi {
        name: "qcd__gluon__dressing_crossed__complex",
        native: 322,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__dressing_crossed__complex(
                c.a[0], c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "qcd__gluon__propagator_crossed_landau",
        native: 323,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__propagator_crossed_landau(c.a[0].re, c.a[1].re, c.a[2].re).c()
        },
    },
    Ffi {
        name: "qcd__gluon__propagator_crossed_landau__complex",
        native: 323,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__propagator_crossed_landau__complex(
                c.a[0], c.a[1].re, c.a[2].re,
            )
            .c()
        },
    },
    Ffi {
        name: "qcd__gluon__propagator_crossed",
        native: 324,
        mask: 0,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__propagator_crossed(c.a[0].re, c.a[1].re, c.a[2].re, c.a[3].re)
                .c()
        },
    },
    Ffi {
        name: "qcd__gluon__propagator_crossed__complex",
        native: 324,
        mask: 1,
        f: |c| {
            qcd_sme::ffi::qcd__gluon__propagator_crossed__complex(
                c.a[0], c.a[1].re, c.a[2].re, c.a[3].re,
            )
            .c()
        },
    },
    Ffi {
        name: "qcd__ghost__dressing_inv_landau",
        native: 337,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing_inv_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "qcd__ghost__dressing_inv_landau__complex",
        native: 337,
        mask: 1,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing_inv_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "qcd__ghost__dressing_inv",
        native: 338,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing_inv(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__ghost__dressing_inv__complex",
        native: 338,
        mask: 1,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing_inv__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__ghost__dressing_landau",
        native: 339,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing_landau(c.a[0].re, c.a[1].re).c(),
    },
    Ffi {
        name: "qcd__ghost__dressing_landau__complex",
        native: 339,
        mask: 1,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing_landau__complex(c.a[0], c.a[1].re).c(),
    },
    Ffi {
        name: "qcd__ghost__dressing",
        native: 340,
        mask: 0,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing(c.a[0].re, c.a[1].re, c.a[2].re).c(),
    },
    Ffi {
        name: "qcd__ghost__dressing__complex",
        native: 340,
        mask: 1,
        f: |c| qcd_sme::ffi::qcd__ghost__dressing__complex(c.a[0], c.a[1].re, c.a[2].re).c(),
    },
];
/// exported names that are settings rather than functions of their arguments
pub static FFI_SETTINGS: &[&str] = &[
    "get_number_of_colors",
    "set_number_of_colors",
    "get_number_of_fermions",
    "set_number_of_fermions",
    "get_default_quark_mass",
    "set_default_quark_mass",
    "get_default_tol_integral",
    "set_default_tol_integral",
    "get_default_max_iter_integral",
    "set_default_max_iter_integral",
    "get_matsubara_reg",
    "set_matsubara_reg",
];
