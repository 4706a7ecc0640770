#![allow(unused)]
use cglinalg_core::*; use cglinalg_transform::*; use cglinalg_trigonometry::*;
fn mk<T>() -> T { loop {} }
fn p0() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p1() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p2() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p3() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p4() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // accept transposed-product
fn p5() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p6() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p7() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product-result
fn p8() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,1,1>>()); } // accept matrix-dot
fn p9() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // accept matrix-dot
fn p10() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // accept matrix-componentwise
fn p11() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p12() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p13() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p14() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p15() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p16() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p17() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p18() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,1>>(); } // accept matrix-sum
fn p19() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,1,1>>(); } // accept matrix-sum-assign
fn p20() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,1,1>>(); } // accept matrix-sum-assign
fn p21() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,1,1>>(); } // accept matrix-sum-assign
fn p22() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,1,1>>(); } // accept matrix-sum-assign
fn p23() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // accept matrix-componentwise
fn p24() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,1,1>>(); } // accept matrix-equality
fn p25() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>().transpose(); } // accept transpose-result
fn p26() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p27() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p28() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p29() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p30() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // accept transposed-product
fn p31() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p32() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p33() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product-result
fn p34() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p35() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p36() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p37() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p38() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p39() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p40() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p41() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p42() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p43() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p44() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p45() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p46() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p47() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p48() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p49() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p50() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p51() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p52() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p53() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p54() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p55() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p56() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // accept transposed-product
fn p57() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p58() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p59() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product-result
fn p60() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p61() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p62() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p63() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p64() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p65() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p66() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p67() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p68() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p69() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p70() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p71() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p72() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p73() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p74() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p75() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p76() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p77() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p78() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p79() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p80() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p81() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p82() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // accept transposed-product
fn p83() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p84() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p85() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product-result
fn p86() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p87() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p88() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p89() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p90() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p91() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p92() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p93() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p94() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p95() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p96() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p97() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p98() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p99() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p100() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p101() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p102() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p103() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p104() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p105() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p106() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p107() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p108() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p109() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p110() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p111() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p112() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p113() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p114() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p115() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p116() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p117() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p118() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p119() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p120() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p121() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p122() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p123() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p124() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p125() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p126() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p127() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p128() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p129() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p130() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p131() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p132() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p133() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p134() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p135() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p136() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p137() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p138() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p139() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p140() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p141() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p142() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p143() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p144() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p145() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p146() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p147() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p148() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p149() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p150() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p151() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p152() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p153() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p154() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p155() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p156() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p157() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p158() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p159() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p160() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p161() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p162() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p163() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p164() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p165() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p166() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p167() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p168() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p169() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p170() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p171() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p172() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p173() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p174() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p175() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p176() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p177() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p178() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p179() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p180() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p181() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p182() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p183() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p184() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p185() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p186() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p187() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p188() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p189() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p190() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p191() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p192() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p193() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p194() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p195() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p196() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p197() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p198() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p199() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p200() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p201() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p202() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p203() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p204() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p205() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p206() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p207() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p208() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p209() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p210() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p211() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p212() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p213() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p214() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p215() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p216() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p217() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p218() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p219() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p220() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p221() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p222() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p223() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p224() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p225() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p226() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p227() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p228() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p229() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p230() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p231() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p232() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p233() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p234() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p235() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p236() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p237() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p238() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p239() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p240() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p241() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p242() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p243() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p244() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p245() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p246() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p247() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p248() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p249() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p250() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p251() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p252() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p253() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p254() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p255() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p256() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p257() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p258() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p259() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p260() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p261() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p262() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p263() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p264() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p265() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p266() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p267() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p268() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p269() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p270() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p271() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p272() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p273() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p274() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p275() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p276() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p277() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p278() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p279() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p280() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p281() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p282() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p283() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p284() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p285() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p286() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p287() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p288() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p289() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p290() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p291() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p292() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p293() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p294() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p295() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p296() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p297() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p298() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p299() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p300() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p301() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p302() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p303() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p304() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p305() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p306() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p307() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p308() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p309() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p310() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p311() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p312() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p313() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p314() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p315() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p316() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p317() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p318() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p319() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p320() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p321() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p322() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p323() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p324() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p325() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p326() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p327() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p328() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p329() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p330() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p331() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p332() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p333() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p334() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p335() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p336() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p337() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p338() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p339() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p340() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p341() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p342() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p343() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p344() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p345() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p346() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p347() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p348() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p349() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p350() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p351() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p352() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p353() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p354() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p355() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p356() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p357() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p358() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p359() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p360() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p361() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,1>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p362() { let _ = mk::<Matrix<f64,1,1>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p363() { let _ = mk::<Matrix<f64,1,1>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p364() { let _ = mk::<Matrix<f64,1,1>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p365() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p366() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p367() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p368() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p369() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p370() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p371() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p372() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p373() { let mut m = mk::<Matrix<f64,1,1>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p374() { let mut m = mk::<Matrix<f64,1,1>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p375() { let mut m = mk::<Matrix<f64,1,1>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p376() { let mut m = mk::<Matrix<f64,1,1>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p377() { let _ = mk::<Matrix<f64,1,1>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p378() { let _ = mk::<Matrix<f64,1,1>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p379() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,1>>().transpose(); } // reject transpose-result
fn p380() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p381() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p382() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p383() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p384() { let _: Vector<f64,2> = mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector-result
fn p385() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>().row(0); } // accept row-result
fn p386() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>().column(0); } // accept column-result
fn p387() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p388() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p389() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p390() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p391() { let _: Vector<f64,2> = mk::<Matrix<f64,1,1>>().row(0); } // reject row-result
fn p392() { let _: Vector<f64,2> = mk::<Matrix<f64,1,1>>().column(0); } // reject column-result
fn p393() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p394() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p395() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p396() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p397() { let _: Vector<f64,3> = mk::<Matrix<f64,1,1>>().row(0); } // reject row-result
fn p398() { let _: Vector<f64,3> = mk::<Matrix<f64,1,1>>().column(0); } // reject column-result
fn p399() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p400() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p401() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p402() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p403() { let _: Vector<f64,4> = mk::<Matrix<f64,1,1>>().row(0); } // reject row-result
fn p404() { let _: Vector<f64,4> = mk::<Matrix<f64,1,1>>().column(0); } // reject column-result
fn p405() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.trace(); m = m.clone(); } // accept square-only
fn p406() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.transpose_mut(); m = m.clone(); } // accept square-only
fn p407() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.is_diagonal(); m = m.clone(); } // accept square-only
fn p408() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.is_symmetric(); m = m.clone(); } // accept square-only
fn p409() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.determinant(); m = m.clone(); } // accept square-only
fn p410() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.inverse(); m = m.clone(); } // accept square-only
fn p411() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.try_inverse(); m = m.clone(); } // accept square-only
fn p412() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.is_invertible(); m = m.clone(); } // accept square-only
fn p413() { let mut m = mk::<Matrix<f64,1,1>>(); let _ = m.is_identity(); m = m.clone(); } // accept square-only
fn p414() { let _ = Matrix::<f64,1,1>::identity(); } // accept square-only
fn p415() { let _ = Matrix::<f64,1,1>::from_diagonal_value(1.0); } // accept square-only
fn p416() { let _ = Matrix::<f64,1,1>::from_diagonal(&mk::<Vector<f64,1>>()); } // accept square-only
fn p417() { let _ = Matrix::<f64,1,1>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p418() { let _ = Matrix::<f64,1,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p419() { let _ = Matrix::<f64,1,1>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p420() { let _ = Matrix::<f64,1,1>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p421() { let _ = Matrix::<f64,1,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p422() { let _ = Matrix::<f64,1,1>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p423() { let _ = Matrix::<f64,1,1>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p424() { let _ = Matrix::<f64,1,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p425() { let _ = Matrix::<f64,1,1>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p426() { let _ = Matrix::<f64,1,1>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p427() { let _ = Matrix::<f64,1,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p428() { let _: Vector<f64,1> = mk::<Matrix<f64,1,1>>().diagonal(); } // accept diagonal-result
fn p429() { let _: Vector<f64,2> = mk::<Matrix<f64,1,1>>().diagonal(); } // reject diagonal-result
fn p430() { let _: Vector<f64,3> = mk::<Matrix<f64,1,1>>().diagonal(); } // reject diagonal-result
fn p431() { let _: Vector<f64,4> = mk::<Matrix<f64,1,1>>().diagonal(); } // reject diagonal-result
fn p432() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;1]>()); } // accept flat-array
fn p433() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;1] = m.as_ref(); } // accept flat-array
fn p434() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;2]>()); } // reject flat-array
fn p435() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p436() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;3]>()); } // reject flat-array
fn p437() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p438() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;4]>()); } // reject flat-array
fn p439() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p440() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;5]>()); } // reject flat-array
fn p441() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p442() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;6]>()); } // reject flat-array
fn p443() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p444() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;7]>()); } // reject flat-array
fn p445() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p446() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;8]>()); } // reject flat-array
fn p447() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p448() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;9]>()); } // reject flat-array
fn p449() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p450() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;10]>()); } // reject flat-array
fn p451() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p452() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;11]>()); } // reject flat-array
fn p453() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p454() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;12]>()); } // reject flat-array
fn p455() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p456() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;13]>()); } // reject flat-array
fn p457() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p458() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;14]>()); } // reject flat-array
fn p459() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p460() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;15]>()); } // reject flat-array
fn p461() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p462() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;16]>()); } // reject flat-array
fn p463() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p464() { let _ = Matrix::<f64,1,1>::from(mk::<[f64;17]>()); } // reject flat-array
fn p465() { let m = mk::<Matrix<f64,1,1>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p466() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p467() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p468() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p469() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p470() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // accept transposed-product
fn p471() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product-result
fn p472() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p473() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p474() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p475() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p476() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p477() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p478() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p479() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p480() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p481() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p482() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p483() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p484() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p485() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p486() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p487() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p488() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p489() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p490() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p491() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p492() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p493() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p494() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // accept transposed-product
fn p495() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product-result
fn p496() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,1,2>>()); } // accept matrix-dot
fn p497() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p498() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // accept matrix-componentwise
fn p499() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p500() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p501() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p502() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p503() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p504() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p505() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p506() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,2>>(); } // accept matrix-sum
fn p507() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,1,2>>(); } // accept matrix-sum-assign
fn p508() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,1,2>>(); } // accept matrix-sum-assign
fn p509() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,1,2>>(); } // accept matrix-sum-assign
fn p510() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,1,2>>(); } // accept matrix-sum-assign
fn p511() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // accept matrix-componentwise
fn p512() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,1,2>>(); } // accept matrix-equality
fn p513() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p514() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p515() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p516() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p517() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p518() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // accept transposed-product
fn p519() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product-result
fn p520() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p521() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p522() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p523() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p524() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p525() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p526() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p527() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p528() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p529() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p530() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p531() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p532() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p533() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p534() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p535() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p536() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p537() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p538() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p539() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p540() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p541() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p542() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // accept transposed-product
fn p543() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product-result
fn p544() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p545() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p546() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p547() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p548() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p549() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p550() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p551() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p552() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p553() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p554() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p555() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p556() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p557() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p558() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p559() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p560() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p561() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p562() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p563() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p564() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p565() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p566() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p567() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p568() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p569() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p570() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // accept matrix-dot
fn p571() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p572() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p573() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p574() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p575() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p576() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p577() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p578() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p579() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p580() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p581() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p582() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p583() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p584() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p585() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p586() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,2>>().transpose(); } // accept transpose-result
fn p587() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p588() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p589() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p590() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p591() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p592() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p593() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p594() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p595() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p596() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p597() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p598() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p599() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p600() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p601() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p602() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p603() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p604() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p605() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p606() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p607() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p608() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p609() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p610() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p611() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p612() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p613() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p614() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p615() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p616() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p617() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p618() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p619() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p620() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p621() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p622() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p623() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p624() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p625() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p626() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p627() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p628() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p629() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p630() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p631() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p632() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p633() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p634() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p635() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p636() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p637() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p638() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p639() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p640() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p641() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p642() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p643() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p644() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p645() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p646() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p647() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p648() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p649() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p650() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p651() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p652() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p653() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p654() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p655() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p656() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p657() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p658() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p659() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p660() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p661() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p662() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p663() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p664() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p665() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p666() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p667() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p668() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p669() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p670() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p671() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p672() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p673() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p674() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p675() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p676() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p677() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p678() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p679() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p680() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p681() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p682() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p683() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p684() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p685() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p686() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p687() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p688() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p689() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p690() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p691() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p692() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p693() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p694() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p695() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p696() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p697() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p698() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p699() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p700() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p701() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p702() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p703() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p704() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p705() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p706() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p707() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p708() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p709() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p710() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p711() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p712() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p713() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p714() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p715() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p716() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p717() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p718() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p719() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p720() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p721() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p722() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p723() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p724() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p725() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p726() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p727() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p728() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p729() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p730() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p731() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p732() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p733() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p734() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p735() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p736() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p737() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p738() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p739() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p740() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p741() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p742() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p743() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p744() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p745() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p746() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p747() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p748() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p749() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p750() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p751() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p752() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p753() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p754() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p755() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p756() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p757() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p758() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p759() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p760() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p761() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p762() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p763() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p764() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p765() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p766() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p767() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p768() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p769() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p770() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p771() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p772() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p773() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p774() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p775() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p776() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p777() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p778() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p779() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p780() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p781() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p782() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p783() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p784() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p785() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p786() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p787() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p788() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p789() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p790() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p791() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p792() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p793() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p794() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p795() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p796() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p797() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p798() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p799() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p800() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p801() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p802() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p803() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p804() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p805() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p806() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p807() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p808() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p809() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p810() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p811() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p812() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p813() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p814() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p815() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p816() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p817() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p818() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p819() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p820() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p821() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p822() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p823() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p824() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p825() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p826() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p827() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,2>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p828() { let _ = mk::<Matrix<f64,1,2>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p829() { let _ = mk::<Matrix<f64,1,2>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p830() { let _ = mk::<Matrix<f64,1,2>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p831() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p832() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p833() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p834() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p835() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p836() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p837() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p838() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p839() { let mut m = mk::<Matrix<f64,1,2>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p840() { let mut m = mk::<Matrix<f64,1,2>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p841() { let mut m = mk::<Matrix<f64,1,2>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p842() { let mut m = mk::<Matrix<f64,1,2>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p843() { let _ = mk::<Matrix<f64,1,2>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p844() { let _ = mk::<Matrix<f64,1,2>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p845() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,2>>().transpose(); } // reject transpose-result
fn p846() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p847() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p848() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p849() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p850() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>().row(0); } // reject row-result
fn p851() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>().column(0); } // accept column-result
fn p852() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p853() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p854() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p855() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p856() { let _: Vector<f64,2> = mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector-result
fn p857() { let _: Vector<f64,2> = mk::<Matrix<f64,1,2>>().row(0); } // accept row-result
fn p858() { let _: Vector<f64,2> = mk::<Matrix<f64,1,2>>().column(0); } // reject column-result
fn p859() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p860() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p861() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p862() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p863() { let _: Vector<f64,3> = mk::<Matrix<f64,1,2>>().row(0); } // reject row-result
fn p864() { let _: Vector<f64,3> = mk::<Matrix<f64,1,2>>().column(0); } // reject column-result
fn p865() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p866() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p867() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p868() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p869() { let _: Vector<f64,4> = mk::<Matrix<f64,1,2>>().row(0); } // reject row-result
fn p870() { let _: Vector<f64,4> = mk::<Matrix<f64,1,2>>().column(0); } // reject column-result
fn p871() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p872() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p873() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p874() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p875() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p876() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p877() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p878() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p879() { let mut m = mk::<Matrix<f64,1,2>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p880() { let _ = Matrix::<f64,1,2>::identity(); } // reject square-only
fn p881() { let _ = Matrix::<f64,1,2>::from_diagonal_value(1.0); } // reject square-only
fn p882() { let _ = Matrix::<f64,1,2>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p883() { let _ = Matrix::<f64,1,2>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p884() { let _ = Matrix::<f64,1,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p885() { let _ = Matrix::<f64,1,2>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p886() { let _ = Matrix::<f64,1,2>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p887() { let _ = Matrix::<f64,1,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p888() { let _ = Matrix::<f64,1,2>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p889() { let _ = Matrix::<f64,1,2>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p890() { let _ = Matrix::<f64,1,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p891() { let _ = Matrix::<f64,1,2>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p892() { let _ = Matrix::<f64,1,2>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p893() { let _ = Matrix::<f64,1,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p894() { let _: Vector<f64,1> = mk::<Matrix<f64,1,2>>().diagonal(); } // reject diagonal-result
fn p895() { let _: Vector<f64,2> = mk::<Matrix<f64,1,2>>().diagonal(); } // reject diagonal-result
fn p896() { let _: Vector<f64,3> = mk::<Matrix<f64,1,2>>().diagonal(); } // reject diagonal-result
fn p897() { let _: Vector<f64,4> = mk::<Matrix<f64,1,2>>().diagonal(); } // reject diagonal-result
fn p898() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;1]>()); } // reject flat-array
fn p899() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p900() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;2]>()); } // accept flat-array
fn p901() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;2] = m.as_ref(); } // accept flat-array
fn p902() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;3]>()); } // reject flat-array
fn p903() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p904() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;4]>()); } // reject flat-array
fn p905() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p906() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;5]>()); } // reject flat-array
fn p907() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p908() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;6]>()); } // reject flat-array
fn p909() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p910() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;7]>()); } // reject flat-array
fn p911() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p912() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;8]>()); } // reject flat-array
fn p913() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p914() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;9]>()); } // reject flat-array
fn p915() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p916() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;10]>()); } // reject flat-array
fn p917() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p918() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;11]>()); } // reject flat-array
fn p919() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p920() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;12]>()); } // reject flat-array
fn p921() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p922() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;13]>()); } // reject flat-array
fn p923() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p924() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;14]>()); } // reject flat-array
fn p925() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p926() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;15]>()); } // reject flat-array
fn p927() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p928() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;16]>()); } // reject flat-array
fn p929() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p930() { let _ = Matrix::<f64,1,2>::from(mk::<[f64;17]>()); } // reject flat-array
fn p931() { let m = mk::<Matrix<f64,1,2>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p932() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p933() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p934() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p935() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p936() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // accept transposed-product
fn p937() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product-result
fn p938() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p939() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p940() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p941() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p942() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p943() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p944() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p945() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p946() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p947() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p948() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p949() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p950() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p951() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p952() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p953() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p954() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p955() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p956() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p957() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p958() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p959() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p960() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // accept transposed-product
fn p961() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product-result
fn p962() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p963() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p964() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p965() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p966() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p967() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p968() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p969() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p970() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p971() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p972() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p973() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p974() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p975() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p976() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p977() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p978() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p979() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p980() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p981() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p982() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p983() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p984() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // accept transposed-product
fn p985() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product-result
fn p986() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,1,3>>()); } // accept matrix-dot
fn p987() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p988() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // accept matrix-componentwise
fn p989() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p990() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p991() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p992() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p993() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p994() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p995() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p996() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,3>>(); } // accept matrix-sum
fn p997() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,1,3>>(); } // accept matrix-sum-assign
fn p998() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,1,3>>(); } // accept matrix-sum-assign
fn p999() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,1,3>>(); } // accept matrix-sum-assign
fn p1000() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,1,3>>(); } // accept matrix-sum-assign
fn p1001() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // accept matrix-componentwise
fn p1002() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,1,3>>(); } // accept matrix-equality
fn p1003() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1004() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1005() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1006() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1007() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1008() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // accept transposed-product
fn p1009() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product-result
fn p1010() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p1011() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p1012() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p1013() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1014() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1015() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1016() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1017() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1018() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1019() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1020() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1021() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1022() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1023() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1024() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1025() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p1026() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p1027() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1028() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1029() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1030() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1031() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1032() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p1033() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p1034() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p1035() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p1036() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1037() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1038() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1039() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1040() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1041() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1042() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1043() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1044() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1045() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1046() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1047() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1048() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p1049() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p1050() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1051() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1052() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1053() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1054() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1055() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p1056() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p1057() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p1058() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p1059() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1060() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1061() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1062() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1063() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1064() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1065() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1066() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1067() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1068() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1069() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1070() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1071() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p1072() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p1073() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1074() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1075() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1076() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1077() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1078() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p1079() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p1080() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p1081() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p1082() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1083() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1084() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1085() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1086() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1087() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1088() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1089() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1090() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1091() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1092() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1093() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1094() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p1095() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p1096() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1097() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1098() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1099() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1100() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1101() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p1102() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p1103() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p1104() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p1105() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1106() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1107() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1108() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1109() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1110() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1111() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1112() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1113() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1114() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1115() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1116() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1117() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p1118() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p1119() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1120() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p1121() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p1122() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p1123() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p1124() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p1125() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p1126() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p1127() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p1128() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // accept matrix-dot
fn p1129() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p1130() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1131() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1132() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1133() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1134() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1135() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1136() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1137() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1138() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1139() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1140() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1141() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1142() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p1143() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p1144() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,3>>().transpose(); } // accept transpose-result
fn p1145() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p1146() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p1147() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p1148() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p1149() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p1150() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p1151() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p1152() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p1153() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p1154() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p1155() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1156() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1157() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1158() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1159() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1160() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1161() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1162() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1163() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1164() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1165() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1166() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1167() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p1168() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p1169() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1170() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p1171() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p1172() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p1173() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p1174() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p1175() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p1176() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p1177() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p1178() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p1179() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p1180() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1181() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1182() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1183() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1184() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1185() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1186() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1187() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1188() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1189() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1190() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1191() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1192() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p1193() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p1194() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1195() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p1196() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p1197() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p1198() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p1199() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p1200() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p1201() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p1202() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p1203() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p1204() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p1205() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1206() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1207() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1208() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1209() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1210() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1211() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1212() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1213() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1214() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1215() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1216() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1217() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p1218() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p1219() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1220() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p1221() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p1222() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p1223() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p1224() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p1225() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p1226() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p1227() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p1228() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1229() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1230() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1231() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1232() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1233() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1234() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1235() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1236() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1237() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1238() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1239() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1240() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p1241() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p1242() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1243() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p1244() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p1245() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p1246() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p1247() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p1248() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p1249() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p1250() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p1251() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1252() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1253() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1254() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1255() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1256() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1257() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1258() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1259() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1260() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1261() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1262() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1263() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p1264() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p1265() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1266() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p1267() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p1268() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p1269() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p1270() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p1271() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p1272() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p1273() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p1274() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1275() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1276() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1277() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1278() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1279() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1280() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1281() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1282() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1283() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1284() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1285() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1286() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p1287() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p1288() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1289() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p1290() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p1291() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p1292() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p1293() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,3>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p1294() { let _ = mk::<Matrix<f64,1,3>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p1295() { let _ = mk::<Matrix<f64,1,3>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p1296() { let _ = mk::<Matrix<f64,1,3>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p1297() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1298() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1299() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1300() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1301() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1302() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1303() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1304() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1305() { let mut m = mk::<Matrix<f64,1,3>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1306() { let mut m = mk::<Matrix<f64,1,3>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1307() { let mut m = mk::<Matrix<f64,1,3>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1308() { let mut m = mk::<Matrix<f64,1,3>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1309() { let _ = mk::<Matrix<f64,1,3>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p1310() { let _ = mk::<Matrix<f64,1,3>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p1311() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,3>>().transpose(); } // reject transpose-result
fn p1312() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1313() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1314() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1315() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1316() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>().row(0); } // reject row-result
fn p1317() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>().column(0); } // accept column-result
fn p1318() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1319() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1320() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1321() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1322() { let _: Vector<f64,2> = mk::<Matrix<f64,1,3>>().row(0); } // reject row-result
fn p1323() { let _: Vector<f64,2> = mk::<Matrix<f64,1,3>>().column(0); } // reject column-result
fn p1324() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p1325() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p1326() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p1327() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p1328() { let _: Vector<f64,2> = mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector-result
fn p1329() { let _: Vector<f64,3> = mk::<Matrix<f64,1,3>>().row(0); } // accept row-result
fn p1330() { let _: Vector<f64,3> = mk::<Matrix<f64,1,3>>().column(0); } // reject column-result
fn p1331() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p1332() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p1333() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p1334() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p1335() { let _: Vector<f64,4> = mk::<Matrix<f64,1,3>>().row(0); } // reject row-result
fn p1336() { let _: Vector<f64,4> = mk::<Matrix<f64,1,3>>().column(0); } // reject column-result
fn p1337() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p1338() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p1339() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p1340() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p1341() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p1342() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p1343() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p1344() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p1345() { let mut m = mk::<Matrix<f64,1,3>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p1346() { let _ = Matrix::<f64,1,3>::identity(); } // reject square-only
fn p1347() { let _ = Matrix::<f64,1,3>::from_diagonal_value(1.0); } // reject square-only
fn p1348() { let _ = Matrix::<f64,1,3>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p1349() { let _ = Matrix::<f64,1,3>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p1350() { let _ = Matrix::<f64,1,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p1351() { let _ = Matrix::<f64,1,3>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p1352() { let _ = Matrix::<f64,1,3>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p1353() { let _ = Matrix::<f64,1,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p1354() { let _ = Matrix::<f64,1,3>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p1355() { let _ = Matrix::<f64,1,3>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p1356() { let _ = Matrix::<f64,1,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p1357() { let _ = Matrix::<f64,1,3>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p1358() { let _ = Matrix::<f64,1,3>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p1359() { let _ = Matrix::<f64,1,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p1360() { let _: Vector<f64,1> = mk::<Matrix<f64,1,3>>().diagonal(); } // reject diagonal-result
fn p1361() { let _: Vector<f64,2> = mk::<Matrix<f64,1,3>>().diagonal(); } // reject diagonal-result
fn p1362() { let _: Vector<f64,3> = mk::<Matrix<f64,1,3>>().diagonal(); } // reject diagonal-result
fn p1363() { let _: Vector<f64,4> = mk::<Matrix<f64,1,3>>().diagonal(); } // reject diagonal-result
fn p1364() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;1]>()); } // reject flat-array
fn p1365() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p1366() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;2]>()); } // reject flat-array
fn p1367() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p1368() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;3]>()); } // accept flat-array
fn p1369() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;3] = m.as_ref(); } // accept flat-array
fn p1370() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;4]>()); } // reject flat-array
fn p1371() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p1372() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;5]>()); } // reject flat-array
fn p1373() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p1374() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;6]>()); } // reject flat-array
fn p1375() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p1376() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;7]>()); } // reject flat-array
fn p1377() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p1378() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;8]>()); } // reject flat-array
fn p1379() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p1380() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;9]>()); } // reject flat-array
fn p1381() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p1382() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;10]>()); } // reject flat-array
fn p1383() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p1384() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;11]>()); } // reject flat-array
fn p1385() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p1386() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;12]>()); } // reject flat-array
fn p1387() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p1388() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;13]>()); } // reject flat-array
fn p1389() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p1390() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;14]>()); } // reject flat-array
fn p1391() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p1392() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;15]>()); } // reject flat-array
fn p1393() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p1394() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;16]>()); } // reject flat-array
fn p1395() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p1396() { let _ = Matrix::<f64,1,3>::from(mk::<[f64;17]>()); } // reject flat-array
fn p1397() { let m = mk::<Matrix<f64,1,3>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p1398() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p1399() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p1400() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p1401() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p1402() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // accept transposed-product
fn p1403() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product-result
fn p1404() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p1405() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p1406() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p1407() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1408() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1409() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1410() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1411() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1412() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1413() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1414() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1415() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1416() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1417() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1418() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1419() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p1420() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p1421() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1422() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p1423() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p1424() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p1425() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p1426() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // accept transposed-product
fn p1427() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product-result
fn p1428() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p1429() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p1430() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p1431() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1432() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1433() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1434() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1435() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1436() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1437() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1438() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1439() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1440() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1441() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1442() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1443() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p1444() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p1445() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1446() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p1447() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p1448() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p1449() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p1450() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // accept transposed-product
fn p1451() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product-result
fn p1452() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p1453() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p1454() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p1455() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1456() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1457() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1458() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1459() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1460() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1461() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1462() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1463() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1464() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1465() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1466() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1467() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p1468() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p1469() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1470() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1471() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1472() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1473() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p1474() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // accept transposed-product
fn p1475() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product-result
fn p1476() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,1,4>>()); } // accept matrix-dot
fn p1477() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p1478() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // accept matrix-componentwise
fn p1479() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1480() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1481() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1482() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1483() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1484() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1485() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1486() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,1,4>>(); } // accept matrix-sum
fn p1487() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,1,4>>(); } // accept matrix-sum-assign
fn p1488() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,1,4>>(); } // accept matrix-sum-assign
fn p1489() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,1,4>>(); } // accept matrix-sum-assign
fn p1490() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,1,4>>(); } // accept matrix-sum-assign
fn p1491() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // accept matrix-componentwise
fn p1492() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,1,4>>(); } // accept matrix-equality
fn p1493() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1494() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1495() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1496() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1497() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1498() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p1499() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p1500() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p1501() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p1502() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1503() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1504() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1505() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1506() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1507() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1508() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1509() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p1510() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1511() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1512() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1513() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p1514() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p1515() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p1516() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1517() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1518() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1519() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1520() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1521() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p1522() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p1523() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p1524() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p1525() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1526() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1527() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1528() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1529() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1530() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1531() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1532() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1533() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1534() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1535() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1536() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p1537() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p1538() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p1539() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1540() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1541() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1542() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1543() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p1544() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p1545() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p1546() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p1547() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p1548() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1549() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1550() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1551() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1552() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1553() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1554() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1555() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p1556() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1557() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1558() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1559() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p1560() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p1561() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p1562() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1563() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1564() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1565() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1566() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p1567() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p1568() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p1569() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p1570() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p1571() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1572() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1573() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1574() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1575() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1576() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1577() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1578() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p1579() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1580() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1581() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1582() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p1583() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p1584() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p1585() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1586() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p1587() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p1588() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p1589() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p1590() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p1591() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p1592() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p1593() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p1594() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1595() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1596() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1597() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1598() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1599() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1600() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1601() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p1602() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1603() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1604() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1605() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p1606() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p1607() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p1608() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1609() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p1610() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p1611() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p1612() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p1613() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p1614() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p1615() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p1616() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p1617() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1618() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1619() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1620() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1621() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1622() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1623() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1624() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p1625() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1626() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1627() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1628() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p1629() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p1630() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p1631() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1632() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p1633() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p1634() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p1635() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p1636() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p1637() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p1638() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p1639() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p1640() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1641() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1642() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1643() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1644() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1645() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1646() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1647() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p1648() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1649() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1650() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1651() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p1652() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p1653() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p1654() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1655() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p1656() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p1657() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p1658() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p1659() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p1660() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p1661() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p1662() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p1663() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1664() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1665() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1666() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1667() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1668() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1669() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1670() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p1671() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1672() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1673() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1674() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p1675() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p1676() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p1677() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1678() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p1679() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p1680() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p1681() { let _: Matrix<f64,1,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p1682() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p1683() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p1684() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p1685() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p1686() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // accept matrix-dot
fn p1687() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p1688() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1689() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1690() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1691() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1692() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1693() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1694() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1695() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p1696() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1697() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1698() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1699() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p1700() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p1701() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p1702() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,1,4>>().transpose(); } // accept transpose-result
fn p1703() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p1704() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p1705() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p1706() { let _: Matrix<f64,1,2> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p1707() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p1708() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p1709() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p1710() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p1711() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p1712() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p1713() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1714() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1715() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1716() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1717() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1718() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1719() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1720() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p1721() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1722() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1723() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1724() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p1725() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p1726() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p1727() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1728() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p1729() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p1730() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p1731() { let _: Matrix<f64,1,3> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p1732() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p1733() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p1734() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p1735() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p1736() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p1737() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p1738() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1739() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1740() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1741() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1742() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1743() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1744() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1745() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p1746() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1747() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1748() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1749() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p1750() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p1751() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p1752() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1753() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p1754() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p1755() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p1756() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p1757() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,4>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p1758() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p1759() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,1,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p1760() { let _ = mk::<Matrix<f64,1,4>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p1761() { let _ = mk::<Matrix<f64,1,4>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p1762() { let _ = mk::<Matrix<f64,1,4>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p1763() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1764() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1765() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1766() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1767() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1768() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1769() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1770() { let _: Matrix<f64,1,4> = &mk::<Matrix<f64,1,4>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p1771() { let mut m = mk::<Matrix<f64,1,4>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1772() { let mut m = mk::<Matrix<f64,1,4>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1773() { let mut m = mk::<Matrix<f64,1,4>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1774() { let mut m = mk::<Matrix<f64,1,4>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p1775() { let _ = mk::<Matrix<f64,1,4>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p1776() { let _ = mk::<Matrix<f64,1,4>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p1777() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,1,4>>().transpose(); } // reject transpose-result
fn p1778() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1779() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1780() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1781() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p1782() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>().row(0); } // reject row-result
fn p1783() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>().column(0); } // accept column-result
fn p1784() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1785() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1786() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1787() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p1788() { let _: Vector<f64,2> = mk::<Matrix<f64,1,4>>().row(0); } // reject row-result
fn p1789() { let _: Vector<f64,2> = mk::<Matrix<f64,1,4>>().column(0); } // reject column-result
fn p1790() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p1791() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p1792() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p1793() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p1794() { let _: Vector<f64,3> = mk::<Matrix<f64,1,4>>().row(0); } // reject row-result
fn p1795() { let _: Vector<f64,3> = mk::<Matrix<f64,1,4>>().column(0); } // reject column-result
fn p1796() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p1797() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p1798() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p1799() { let _: Vector<f64,1> = &mk::<Matrix<f64,1,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p1800() { let _: Vector<f64,2> = mk::<Matrix<f64,1,4>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector-result
fn p1801() { let _: Vector<f64,4> = mk::<Matrix<f64,1,4>>().row(0); } // accept row-result
fn p1802() { let _: Vector<f64,4> = mk::<Matrix<f64,1,4>>().column(0); } // reject column-result
fn p1803() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p1804() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p1805() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p1806() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p1807() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p1808() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p1809() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p1810() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p1811() { let mut m = mk::<Matrix<f64,1,4>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p1812() { let _ = Matrix::<f64,1,4>::identity(); } // reject square-only
fn p1813() { let _ = Matrix::<f64,1,4>::from_diagonal_value(1.0); } // reject square-only
fn p1814() { let _ = Matrix::<f64,1,4>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p1815() { let _ = Matrix::<f64,1,4>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p1816() { let _ = Matrix::<f64,1,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p1817() { let _ = Matrix::<f64,1,4>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p1818() { let _ = Matrix::<f64,1,4>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p1819() { let _ = Matrix::<f64,1,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p1820() { let _ = Matrix::<f64,1,4>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p1821() { let _ = Matrix::<f64,1,4>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p1822() { let _ = Matrix::<f64,1,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p1823() { let _ = Matrix::<f64,1,4>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p1824() { let _ = Matrix::<f64,1,4>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p1825() { let _ = Matrix::<f64,1,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p1826() { let _: Vector<f64,1> = mk::<Matrix<f64,1,4>>().diagonal(); } // reject diagonal-result
fn p1827() { let _: Vector<f64,2> = mk::<Matrix<f64,1,4>>().diagonal(); } // reject diagonal-result
fn p1828() { let _: Vector<f64,3> = mk::<Matrix<f64,1,4>>().diagonal(); } // reject diagonal-result
fn p1829() { let _: Vector<f64,4> = mk::<Matrix<f64,1,4>>().diagonal(); } // reject diagonal-result
fn p1830() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;1]>()); } // reject flat-array
fn p1831() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p1832() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;2]>()); } // reject flat-array
fn p1833() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p1834() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;3]>()); } // reject flat-array
fn p1835() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p1836() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;4]>()); } // accept flat-array
fn p1837() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;4] = m.as_ref(); } // accept flat-array
fn p1838() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;5]>()); } // reject flat-array
fn p1839() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p1840() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;6]>()); } // reject flat-array
fn p1841() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p1842() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;7]>()); } // reject flat-array
fn p1843() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p1844() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;8]>()); } // reject flat-array
fn p1845() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p1846() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;9]>()); } // reject flat-array
fn p1847() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p1848() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;10]>()); } // reject flat-array
fn p1849() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p1850() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;11]>()); } // reject flat-array
fn p1851() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p1852() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;12]>()); } // reject flat-array
fn p1853() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p1854() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;13]>()); } // reject flat-array
fn p1855() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p1856() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;14]>()); } // reject flat-array
fn p1857() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p1858() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;15]>()); } // reject flat-array
fn p1859() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p1860() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;16]>()); } // reject flat-array
fn p1861() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p1862() { let _ = Matrix::<f64,1,4>::from(mk::<[f64;17]>()); } // reject flat-array
fn p1863() { let m = mk::<Matrix<f64,1,4>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p1864() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p1865() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p1866() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p1867() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p1868() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p1869() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p1870() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p1871() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p1872() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p1873() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p1874() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1875() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1876() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1877() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1878() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1879() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1880() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1881() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p1882() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1883() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1884() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1885() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p1886() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p1887() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p1888() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p1889() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p1890() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p1891() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p1892() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p1893() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p1894() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p1895() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p1896() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p1897() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // accept matrix-dot
fn p1898() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p1899() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1900() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1901() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1902() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1903() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1904() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1905() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1906() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p1907() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1908() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1909() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1910() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p1911() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p1912() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p1913() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,1>>().transpose(); } // accept transpose-result
fn p1914() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p1915() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p1916() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p1917() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p1918() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p1919() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p1920() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p1921() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p1922() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p1923() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p1924() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1925() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1926() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1927() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1928() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1929() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1930() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1931() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p1932() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1933() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1934() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1935() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p1936() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p1937() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p1938() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p1939() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p1940() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p1941() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p1942() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p1943() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p1944() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p1945() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p1946() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p1947() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p1948() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p1949() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1950() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1951() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1952() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1953() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1954() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1955() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1956() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p1957() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1958() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1959() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1960() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p1961() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p1962() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p1963() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p1964() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1965() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1966() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1967() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p1968() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // accept transposed-product
fn p1969() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product-result
fn p1970() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,2,1>>()); } // accept matrix-dot
fn p1971() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p1972() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // accept matrix-componentwise
fn p1973() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1974() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1975() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1976() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1977() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1978() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1979() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1980() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,1>>(); } // accept matrix-sum
fn p1981() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,2,1>>(); } // accept matrix-sum-assign
fn p1982() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,2,1>>(); } // accept matrix-sum-assign
fn p1983() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,2,1>>(); } // accept matrix-sum-assign
fn p1984() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,2,1>>(); } // accept matrix-sum-assign
fn p1985() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // accept matrix-componentwise
fn p1986() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,2,1>>(); } // accept matrix-equality
fn p1987() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p1988() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1989() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1990() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1991() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p1992() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // accept transposed-product
fn p1993() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product-result
fn p1994() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p1995() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p1996() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p1997() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1998() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p1999() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2000() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2001() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2002() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2003() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2004() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2005() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2006() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2007() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2008() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2009() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p2010() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p2011() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2012() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2013() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2014() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2015() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2016() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // accept transposed-product
fn p2017() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product-result
fn p2018() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p2019() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p2020() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p2021() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2022() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2023() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2024() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2025() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2026() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2027() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2028() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2029() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2030() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2031() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2032() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2033() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p2034() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p2035() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2036() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2037() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2038() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2039() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2040() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // accept transposed-product
fn p2041() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product-result
fn p2042() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p2043() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p2044() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p2045() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2046() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2047() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2048() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2049() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2050() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2051() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2052() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2053() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2054() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2055() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2056() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2057() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p2058() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p2059() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2060() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2061() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2062() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2063() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2064() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p2065() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p2066() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p2067() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p2068() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2069() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2070() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2071() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2072() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2073() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2074() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2075() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2076() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2077() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2078() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2079() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2080() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p2081() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p2082() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2083() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2084() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2085() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2086() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2087() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p2088() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p2089() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p2090() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p2091() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2092() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2093() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2094() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2095() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2096() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2097() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2098() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2099() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2100() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2101() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2102() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2103() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p2104() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p2105() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2106() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2107() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2108() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2109() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2110() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p2111() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p2112() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p2113() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p2114() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2115() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2116() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2117() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2118() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2119() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2120() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2121() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2122() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2123() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2124() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2125() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2126() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p2127() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p2128() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2129() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2130() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2131() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2132() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2133() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p2134() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p2135() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p2136() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p2137() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2138() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2139() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2140() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2141() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2142() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2143() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2144() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2145() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2146() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2147() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2148() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2149() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p2150() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p2151() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2152() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2153() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2154() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2155() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2156() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p2157() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p2158() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p2159() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p2160() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2161() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2162() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2163() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2164() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2165() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2166() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2167() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2168() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2169() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2170() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2171() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2172() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p2173() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p2174() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2175() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2176() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2177() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2178() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2179() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p2180() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p2181() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p2182() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p2183() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2184() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2185() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2186() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2187() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2188() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2189() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2190() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2191() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2192() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2193() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2194() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2195() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p2196() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p2197() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2198() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2199() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2200() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2201() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2202() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p2203() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p2204() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p2205() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p2206() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2207() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2208() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2209() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2210() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2211() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2212() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2213() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2214() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2215() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2216() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2217() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2218() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p2219() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p2220() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2221() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2222() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2223() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2224() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2225() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,1>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p2226() { let _ = mk::<Matrix<f64,2,1>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p2227() { let _ = mk::<Matrix<f64,2,1>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p2228() { let _ = mk::<Matrix<f64,2,1>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p2229() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2230() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2231() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2232() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2233() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2234() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2235() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2236() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2237() { let mut m = mk::<Matrix<f64,2,1>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2238() { let mut m = mk::<Matrix<f64,2,1>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2239() { let mut m = mk::<Matrix<f64,2,1>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2240() { let mut m = mk::<Matrix<f64,2,1>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2241() { let _ = mk::<Matrix<f64,2,1>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p2242() { let _ = mk::<Matrix<f64,2,1>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p2243() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,1>>().transpose(); } // reject transpose-result
fn p2244() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p2245() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p2246() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p2247() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p2248() { let _: Vector<f64,3> = mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector-result
fn p2249() { let _: Vector<f64,1> = mk::<Matrix<f64,2,1>>().row(0); } // accept row-result
fn p2250() { let _: Vector<f64,1> = mk::<Matrix<f64,2,1>>().column(0); } // reject column-result
fn p2251() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p2252() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p2253() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p2254() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p2255() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>().row(0); } // reject row-result
fn p2256() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>().column(0); } // accept column-result
fn p2257() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2258() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2259() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2260() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2261() { let _: Vector<f64,3> = mk::<Matrix<f64,2,1>>().row(0); } // reject row-result
fn p2262() { let _: Vector<f64,3> = mk::<Matrix<f64,2,1>>().column(0); } // reject column-result
fn p2263() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2264() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2265() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2266() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2267() { let _: Vector<f64,4> = mk::<Matrix<f64,2,1>>().row(0); } // reject row-result
fn p2268() { let _: Vector<f64,4> = mk::<Matrix<f64,2,1>>().column(0); } // reject column-result
fn p2269() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p2270() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p2271() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p2272() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p2273() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p2274() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p2275() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p2276() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p2277() { let mut m = mk::<Matrix<f64,2,1>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p2278() { let _ = Matrix::<f64,2,1>::identity(); } // reject square-only
fn p2279() { let _ = Matrix::<f64,2,1>::from_diagonal_value(1.0); } // reject square-only
fn p2280() { let _ = Matrix::<f64,2,1>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p2281() { let _ = Matrix::<f64,2,1>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p2282() { let _ = Matrix::<f64,2,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p2283() { let _ = Matrix::<f64,2,1>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p2284() { let _ = Matrix::<f64,2,1>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p2285() { let _ = Matrix::<f64,2,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p2286() { let _ = Matrix::<f64,2,1>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p2287() { let _ = Matrix::<f64,2,1>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p2288() { let _ = Matrix::<f64,2,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p2289() { let _ = Matrix::<f64,2,1>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p2290() { let _ = Matrix::<f64,2,1>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p2291() { let _ = Matrix::<f64,2,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p2292() { let _: Vector<f64,1> = mk::<Matrix<f64,2,1>>().diagonal(); } // reject diagonal-result
fn p2293() { let _: Vector<f64,2> = mk::<Matrix<f64,2,1>>().diagonal(); } // reject diagonal-result
fn p2294() { let _: Vector<f64,3> = mk::<Matrix<f64,2,1>>().diagonal(); } // reject diagonal-result
fn p2295() { let _: Vector<f64,4> = mk::<Matrix<f64,2,1>>().diagonal(); } // reject diagonal-result
fn p2296() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;1]>()); } // reject flat-array
fn p2297() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p2298() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;2]>()); } // accept flat-array
fn p2299() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;2] = m.as_ref(); } // accept flat-array
fn p2300() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;3]>()); } // reject flat-array
fn p2301() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p2302() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;4]>()); } // reject flat-array
fn p2303() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p2304() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;5]>()); } // reject flat-array
fn p2305() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p2306() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;6]>()); } // reject flat-array
fn p2307() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p2308() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;7]>()); } // reject flat-array
fn p2309() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p2310() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;8]>()); } // reject flat-array
fn p2311() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p2312() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;9]>()); } // reject flat-array
fn p2313() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p2314() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;10]>()); } // reject flat-array
fn p2315() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p2316() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;11]>()); } // reject flat-array
fn p2317() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p2318() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;12]>()); } // reject flat-array
fn p2319() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p2320() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;13]>()); } // reject flat-array
fn p2321() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p2322() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;14]>()); } // reject flat-array
fn p2323() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p2324() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;15]>()); } // reject flat-array
fn p2325() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p2326() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;16]>()); } // reject flat-array
fn p2327() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p2328() { let _ = Matrix::<f64,2,1>::from(mk::<[f64;17]>()); } // reject flat-array
fn p2329() { let m = mk::<Matrix<f64,2,1>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p2330() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2331() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2332() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2333() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2334() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p2335() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p2336() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p2337() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p2338() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2339() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2340() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2341() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2342() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2343() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2344() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2345() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2346() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2347() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2348() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2349() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2350() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p2351() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p2352() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2353() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2354() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2355() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2356() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2357() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p2358() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p2359() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p2360() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p2361() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2362() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2363() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2364() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2365() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2366() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2367() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2368() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2369() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2370() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2371() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2372() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2373() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p2374() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p2375() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2376() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2377() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2378() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2379() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2380() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p2381() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p2382() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p2383() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p2384() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2385() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2386() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2387() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2388() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2389() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2390() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2391() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2392() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2393() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2394() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2395() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2396() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p2397() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p2398() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2399() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2400() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2401() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2402() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2403() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p2404() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p2405() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p2406() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p2407() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2408() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2409() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2410() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2411() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2412() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2413() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2414() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2415() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2416() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2417() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2418() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2419() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p2420() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p2421() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2422() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p2423() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p2424() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p2425() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p2426() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // accept transposed-product
fn p2427() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p2428() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p2429() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product-result
fn p2430() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p2431() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p2432() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p2433() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2434() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2435() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2436() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2437() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2438() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2439() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2440() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2441() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2442() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2443() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2444() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2445() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p2446() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p2447() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2448() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p2449() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p2450() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p2451() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p2452() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // accept transposed-product
fn p2453() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p2454() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p2455() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product-result
fn p2456() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,2,2>>()); } // accept matrix-dot
fn p2457() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // accept matrix-dot
fn p2458() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // accept matrix-componentwise
fn p2459() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2460() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2461() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2462() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2463() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2464() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2465() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2466() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,2>>(); } // accept matrix-sum
fn p2467() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,2,2>>(); } // accept matrix-sum-assign
fn p2468() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,2,2>>(); } // accept matrix-sum-assign
fn p2469() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,2,2>>(); } // accept matrix-sum-assign
fn p2470() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,2,2>>(); } // accept matrix-sum-assign
fn p2471() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // accept matrix-componentwise
fn p2472() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,2,2>>(); } // accept matrix-equality
fn p2473() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>().transpose(); } // accept transpose-result
fn p2474() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p2475() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p2476() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p2477() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p2478() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // accept transposed-product
fn p2479() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p2480() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p2481() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product-result
fn p2482() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p2483() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p2484() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p2485() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2486() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2487() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2488() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2489() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2490() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2491() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2492() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p2493() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2494() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2495() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2496() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p2497() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p2498() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p2499() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2500() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p2501() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p2502() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p2503() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p2504() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // accept transposed-product
fn p2505() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p2506() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p2507() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product-result
fn p2508() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p2509() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p2510() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p2511() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2512() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2513() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2514() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2515() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2516() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2517() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2518() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2519() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2520() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2521() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2522() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2523() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p2524() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p2525() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2526() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2527() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2528() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2529() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p2530() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p2531() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p2532() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p2533() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p2534() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2535() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2536() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2537() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2538() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2539() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2540() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2541() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2542() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2543() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2544() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2545() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p2546() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p2547() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p2548() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2549() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2550() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2551() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2552() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p2553() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p2554() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p2555() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p2556() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p2557() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2558() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2559() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2560() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2561() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2562() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2563() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2564() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p2565() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2566() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2567() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2568() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p2569() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p2570() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p2571() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2572() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2573() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2574() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2575() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p2576() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p2577() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p2578() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p2579() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p2580() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2581() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2582() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2583() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2584() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2585() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2586() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2587() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p2588() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2589() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2590() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2591() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p2592() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p2593() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p2594() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2595() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2596() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2597() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2598() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p2599() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p2600() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p2601() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p2602() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p2603() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2604() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2605() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2606() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2607() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2608() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2609() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2610() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p2611() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2612() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2613() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2614() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p2615() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p2616() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p2617() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2618() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2619() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2620() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2621() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p2622() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p2623() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p2624() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p2625() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p2626() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2627() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2628() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2629() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2630() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2631() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2632() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2633() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p2634() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2635() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2636() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2637() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p2638() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p2639() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p2640() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2641() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2642() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2643() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2644() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p2645() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p2646() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p2647() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p2648() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p2649() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2650() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2651() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2652() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2653() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2654() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2655() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2656() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p2657() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2658() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2659() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2660() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p2661() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p2662() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p2663() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2664() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2665() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2666() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2667() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p2668() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p2669() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p2670() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p2671() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p2672() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2673() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2674() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2675() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2676() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2677() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2678() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2679() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p2680() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2681() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2682() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2683() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p2684() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p2685() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p2686() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2687() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2688() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2689() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2690() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p2691() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,2>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p2692() { let _ = mk::<Matrix<f64,2,2>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p2693() { let _ = mk::<Matrix<f64,2,2>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p2694() { let _ = mk::<Matrix<f64,2,2>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p2695() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2696() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2697() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2698() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2699() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2700() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2701() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2702() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p2703() { let mut m = mk::<Matrix<f64,2,2>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2704() { let mut m = mk::<Matrix<f64,2,2>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2705() { let mut m = mk::<Matrix<f64,2,2>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2706() { let mut m = mk::<Matrix<f64,2,2>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p2707() { let _ = mk::<Matrix<f64,2,2>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p2708() { let _ = mk::<Matrix<f64,2,2>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p2709() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,2>>().transpose(); } // reject transpose-result
fn p2710() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p2711() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p2712() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p2713() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p2714() { let _: Vector<f64,1> = mk::<Matrix<f64,2,2>>().row(0); } // reject row-result
fn p2715() { let _: Vector<f64,1> = mk::<Matrix<f64,2,2>>().column(0); } // reject column-result
fn p2716() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p2717() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p2718() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p2719() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p2720() { let _: Vector<f64,3> = mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector-result
fn p2721() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>().row(0); } // accept row-result
fn p2722() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>().column(0); } // accept column-result
fn p2723() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2724() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2725() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2726() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p2727() { let _: Vector<f64,3> = mk::<Matrix<f64,2,2>>().row(0); } // reject row-result
fn p2728() { let _: Vector<f64,3> = mk::<Matrix<f64,2,2>>().column(0); } // reject column-result
fn p2729() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2730() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2731() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2732() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p2733() { let _: Vector<f64,4> = mk::<Matrix<f64,2,2>>().row(0); } // reject row-result
fn p2734() { let _: Vector<f64,4> = mk::<Matrix<f64,2,2>>().column(0); } // reject column-result
fn p2735() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.trace(); m = m.clone(); } // accept square-only
fn p2736() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.transpose_mut(); m = m.clone(); } // accept square-only
fn p2737() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.is_diagonal(); m = m.clone(); } // accept square-only
fn p2738() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.is_symmetric(); m = m.clone(); } // accept square-only
fn p2739() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.determinant(); m = m.clone(); } // accept square-only
fn p2740() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.inverse(); m = m.clone(); } // accept square-only
fn p2741() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.try_inverse(); m = m.clone(); } // accept square-only
fn p2742() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.is_invertible(); m = m.clone(); } // accept square-only
fn p2743() { let mut m = mk::<Matrix<f64,2,2>>(); let _ = m.is_identity(); m = m.clone(); } // accept square-only
fn p2744() { let _ = Matrix::<f64,2,2>::identity(); } // accept square-only
fn p2745() { let _ = Matrix::<f64,2,2>::from_diagonal_value(1.0); } // accept square-only
fn p2746() { let _ = Matrix::<f64,2,2>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p2747() { let _ = Matrix::<f64,2,2>::from_affine_translation(&mk::<Vector<f64,1>>()); } // accept affine-size
fn p2748() { let _ = Matrix::<f64,2,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // accept affine-size
fn p2749() { let _ = Matrix::<f64,2,2>::from_diagonal(&mk::<Vector<f64,2>>()); } // accept square-only
fn p2750() { let _ = Matrix::<f64,2,2>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p2751() { let _ = Matrix::<f64,2,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p2752() { let _ = Matrix::<f64,2,2>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p2753() { let _ = Matrix::<f64,2,2>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p2754() { let _ = Matrix::<f64,2,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p2755() { let _ = Matrix::<f64,2,2>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p2756() { let _ = Matrix::<f64,2,2>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p2757() { let _ = Matrix::<f64,2,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p2758() { let _: Vector<f64,1> = mk::<Matrix<f64,2,2>>().diagonal(); } // reject diagonal-result
fn p2759() { let _: Vector<f64,2> = mk::<Matrix<f64,2,2>>().diagonal(); } // accept diagonal-result
fn p2760() { let _: Vector<f64,3> = mk::<Matrix<f64,2,2>>().diagonal(); } // reject diagonal-result
fn p2761() { let _: Vector<f64,4> = mk::<Matrix<f64,2,2>>().diagonal(); } // reject diagonal-result
fn p2762() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;1]>()); } // reject flat-array
fn p2763() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p2764() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;2]>()); } // reject flat-array
fn p2765() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p2766() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;3]>()); } // reject flat-array
fn p2767() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p2768() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;4]>()); } // accept flat-array
fn p2769() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;4] = m.as_ref(); } // accept flat-array
fn p2770() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;5]>()); } // reject flat-array
fn p2771() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p2772() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;6]>()); } // reject flat-array
fn p2773() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p2774() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;7]>()); } // reject flat-array
fn p2775() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p2776() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;8]>()); } // reject flat-array
fn p2777() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p2778() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;9]>()); } // reject flat-array
fn p2779() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p2780() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;10]>()); } // reject flat-array
fn p2781() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p2782() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;11]>()); } // reject flat-array
fn p2783() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p2784() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;12]>()); } // reject flat-array
fn p2785() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p2786() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;13]>()); } // reject flat-array
fn p2787() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p2788() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;14]>()); } // reject flat-array
fn p2789() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p2790() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;15]>()); } // reject flat-array
fn p2791() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p2792() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;16]>()); } // reject flat-array
fn p2793() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p2794() { let _ = Matrix::<f64,2,2>::from(mk::<[f64;17]>()); } // reject flat-array
fn p2795() { let m = mk::<Matrix<f64,2,2>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p2796() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2797() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2798() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2799() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p2800() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p2801() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p2802() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p2803() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p2804() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2805() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2806() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2807() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2808() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2809() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2810() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2811() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p2812() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2813() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2814() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2815() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p2816() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p2817() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p2818() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2819() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2820() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2821() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2822() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p2823() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p2824() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p2825() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p2826() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p2827() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2828() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2829() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2830() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2831() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2832() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2833() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2834() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p2835() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2836() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2837() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2838() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p2839() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p2840() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p2841() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2842() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2843() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2844() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2845() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p2846() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p2847() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p2848() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p2849() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p2850() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2851() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2852() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2853() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2854() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2855() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2856() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2857() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p2858() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2859() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2860() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2861() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p2862() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p2863() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p2864() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2865() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2866() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2867() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2868() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p2869() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p2870() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p2871() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p2872() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p2873() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2874() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2875() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2876() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2877() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2878() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2879() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2880() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p2881() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2882() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2883() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2884() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p2885() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p2886() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p2887() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2888() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p2889() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p2890() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p2891() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p2892() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // accept transposed-product
fn p2893() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product-result
fn p2894() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p2895() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p2896() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p2897() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2898() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2899() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2900() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2901() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2902() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2903() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2904() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p2905() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2906() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2907() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2908() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p2909() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p2910() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p2911() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2912() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p2913() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p2914() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p2915() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p2916() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // accept transposed-product
fn p2917() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product-result
fn p2918() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p2919() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p2920() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p2921() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2922() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2923() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2924() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2925() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2926() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2927() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2928() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p2929() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2930() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2931() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2932() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p2933() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p2934() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p2935() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2936() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2937() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2938() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2939() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p2940() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // accept transposed-product
fn p2941() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product-result
fn p2942() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,2,3>>()); } // accept matrix-dot
fn p2943() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p2944() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // accept matrix-componentwise
fn p2945() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2946() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2947() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2948() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2949() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2950() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2951() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2952() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,3>>(); } // accept matrix-sum
fn p2953() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,2,3>>(); } // accept matrix-sum-assign
fn p2954() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,2,3>>(); } // accept matrix-sum-assign
fn p2955() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,2,3>>(); } // accept matrix-sum-assign
fn p2956() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,2,3>>(); } // accept matrix-sum-assign
fn p2957() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // accept matrix-componentwise
fn p2958() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,2,3>>(); } // accept matrix-equality
fn p2959() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2960() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2961() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2962() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2963() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p2964() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // accept transposed-product
fn p2965() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product-result
fn p2966() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p2967() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p2968() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p2969() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2970() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2971() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2972() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2973() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2974() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2975() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2976() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p2977() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2978() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2979() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2980() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p2981() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p2982() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p2983() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p2984() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p2985() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p2986() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p2987() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p2988() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p2989() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p2990() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p2991() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p2992() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p2993() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p2994() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2995() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2996() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2997() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2998() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p2999() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3000() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3001() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3002() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3003() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3004() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3005() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3006() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p3007() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p3008() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p3009() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p3010() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p3011() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p3012() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p3013() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p3014() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p3015() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p3016() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p3017() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // accept matrix-dot
fn p3018() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p3019() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3020() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3021() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3022() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3023() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3024() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3025() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3026() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3027() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3028() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3029() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3030() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3031() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p3032() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p3033() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,3>>().transpose(); } // accept transpose-result
fn p3034() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p3035() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p3036() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p3037() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p3038() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p3039() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p3040() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p3041() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p3042() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p3043() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p3044() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3045() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3046() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3047() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3048() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3049() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3050() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3051() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3052() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3053() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3054() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3055() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3056() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p3057() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p3058() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p3059() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p3060() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p3061() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p3062() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p3063() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p3064() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p3065() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p3066() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p3067() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p3068() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p3069() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3070() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3071() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3072() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3073() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3074() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3075() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3076() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3077() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3078() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3079() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3080() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3081() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p3082() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p3083() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p3084() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p3085() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p3086() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p3087() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p3088() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p3089() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p3090() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p3091() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p3092() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3093() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3094() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3095() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3096() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3097() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3098() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3099() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3100() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3101() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3102() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3103() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3104() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p3105() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p3106() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p3107() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p3108() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p3109() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p3110() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p3111() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p3112() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p3113() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p3114() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p3115() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3116() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3117() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3118() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3119() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3120() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3121() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3122() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3123() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3124() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3125() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3126() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3127() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p3128() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p3129() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p3130() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p3131() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p3132() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p3133() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p3134() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p3135() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p3136() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p3137() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p3138() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3139() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3140() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3141() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3142() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3143() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3144() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3145() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3146() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3147() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3148() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3149() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3150() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p3151() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p3152() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p3153() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p3154() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p3155() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p3156() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p3157() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,3>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p3158() { let _ = mk::<Matrix<f64,2,3>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p3159() { let _ = mk::<Matrix<f64,2,3>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p3160() { let _ = mk::<Matrix<f64,2,3>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p3161() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3162() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3163() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3164() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3165() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3166() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3167() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3168() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3169() { let mut m = mk::<Matrix<f64,2,3>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3170() { let mut m = mk::<Matrix<f64,2,3>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3171() { let mut m = mk::<Matrix<f64,2,3>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3172() { let mut m = mk::<Matrix<f64,2,3>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3173() { let _ = mk::<Matrix<f64,2,3>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p3174() { let _ = mk::<Matrix<f64,2,3>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p3175() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,3>>().transpose(); } // reject transpose-result
fn p3176() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3177() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3178() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3179() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3180() { let _: Vector<f64,1> = mk::<Matrix<f64,2,3>>().row(0); } // reject row-result
fn p3181() { let _: Vector<f64,1> = mk::<Matrix<f64,2,3>>().column(0); } // reject column-result
fn p3182() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3183() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3184() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3185() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3186() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>().row(0); } // reject row-result
fn p3187() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>().column(0); } // accept column-result
fn p3188() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p3189() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p3190() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p3191() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p3192() { let _: Vector<f64,3> = mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector-result
fn p3193() { let _: Vector<f64,3> = mk::<Matrix<f64,2,3>>().row(0); } // accept row-result
fn p3194() { let _: Vector<f64,3> = mk::<Matrix<f64,2,3>>().column(0); } // reject column-result
fn p3195() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p3196() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p3197() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p3198() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p3199() { let _: Vector<f64,4> = mk::<Matrix<f64,2,3>>().row(0); } // reject row-result
fn p3200() { let _: Vector<f64,4> = mk::<Matrix<f64,2,3>>().column(0); } // reject column-result
fn p3201() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p3202() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p3203() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p3204() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p3205() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p3206() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p3207() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p3208() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p3209() { let mut m = mk::<Matrix<f64,2,3>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p3210() { let _ = Matrix::<f64,2,3>::identity(); } // reject square-only
fn p3211() { let _ = Matrix::<f64,2,3>::from_diagonal_value(1.0); } // reject square-only
fn p3212() { let _ = Matrix::<f64,2,3>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p3213() { let _ = Matrix::<f64,2,3>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p3214() { let _ = Matrix::<f64,2,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p3215() { let _ = Matrix::<f64,2,3>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p3216() { let _ = Matrix::<f64,2,3>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p3217() { let _ = Matrix::<f64,2,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p3218() { let _ = Matrix::<f64,2,3>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p3219() { let _ = Matrix::<f64,2,3>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p3220() { let _ = Matrix::<f64,2,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p3221() { let _ = Matrix::<f64,2,3>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p3222() { let _ = Matrix::<f64,2,3>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p3223() { let _ = Matrix::<f64,2,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p3224() { let _: Vector<f64,1> = mk::<Matrix<f64,2,3>>().diagonal(); } // reject diagonal-result
fn p3225() { let _: Vector<f64,2> = mk::<Matrix<f64,2,3>>().diagonal(); } // reject diagonal-result
fn p3226() { let _: Vector<f64,3> = mk::<Matrix<f64,2,3>>().diagonal(); } // reject diagonal-result
fn p3227() { let _: Vector<f64,4> = mk::<Matrix<f64,2,3>>().diagonal(); } // reject diagonal-result
fn p3228() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;1]>()); } // reject flat-array
fn p3229() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p3230() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;2]>()); } // reject flat-array
fn p3231() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p3232() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;3]>()); } // reject flat-array
fn p3233() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p3234() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;4]>()); } // reject flat-array
fn p3235() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p3236() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;5]>()); } // reject flat-array
fn p3237() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p3238() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;6]>()); } // accept flat-array
fn p3239() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;6] = m.as_ref(); } // accept flat-array
fn p3240() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;7]>()); } // reject flat-array
fn p3241() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p3242() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;8]>()); } // reject flat-array
fn p3243() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p3244() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;9]>()); } // reject flat-array
fn p3245() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p3246() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;10]>()); } // reject flat-array
fn p3247() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p3248() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;11]>()); } // reject flat-array
fn p3249() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p3250() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;12]>()); } // reject flat-array
fn p3251() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p3252() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;13]>()); } // reject flat-array
fn p3253() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p3254() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;14]>()); } // reject flat-array
fn p3255() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p3256() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;15]>()); } // reject flat-array
fn p3257() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p3258() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;16]>()); } // reject flat-array
fn p3259() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p3260() { let _ = Matrix::<f64,2,3>::from(mk::<[f64;17]>()); } // reject flat-array
fn p3261() { let m = mk::<Matrix<f64,2,3>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p3262() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p3263() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p3264() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p3265() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p3266() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p3267() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p3268() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p3269() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p3270() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3271() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3272() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3273() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3274() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3275() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3276() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3277() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3278() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3279() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3280() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3281() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3282() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p3283() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p3284() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3285() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p3286() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p3287() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p3288() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p3289() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p3290() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p3291() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p3292() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p3293() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3294() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3295() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3296() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3297() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3298() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3299() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3300() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3301() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3302() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3303() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3304() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3305() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p3306() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p3307() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3308() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p3309() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p3310() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p3311() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p3312() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p3313() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p3314() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p3315() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p3316() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3317() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3318() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3319() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3320() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3321() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3322() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3323() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3324() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3325() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3326() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3327() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3328() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p3329() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p3330() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3331() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p3332() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p3333() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p3334() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p3335() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p3336() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p3337() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p3338() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p3339() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3340() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3341() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3342() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3343() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3344() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3345() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3346() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3347() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3348() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3349() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3350() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3351() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p3352() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p3353() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3354() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3355() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3356() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3357() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3358() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // accept transposed-product
fn p3359() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product-result
fn p3360() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p3361() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p3362() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p3363() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3364() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3365() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3366() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3367() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3368() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3369() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3370() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3371() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3372() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3373() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3374() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3375() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p3376() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p3377() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3378() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3379() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3380() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3381() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3382() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // accept transposed-product
fn p3383() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product-result
fn p3384() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p3385() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p3386() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p3387() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3388() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3389() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3390() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3391() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3392() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3393() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3394() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3395() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3396() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3397() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3398() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3399() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p3400() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p3401() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3402() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3403() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3404() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3405() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3406() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // accept transposed-product
fn p3407() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product-result
fn p3408() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p3409() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p3410() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p3411() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3412() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3413() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3414() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3415() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3416() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3417() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3418() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3419() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3420() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3421() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3422() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3423() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p3424() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p3425() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3426() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3427() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3428() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3429() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3430() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // accept transposed-product
fn p3431() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product-result
fn p3432() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,2,4>>()); } // accept matrix-dot
fn p3433() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p3434() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // accept matrix-componentwise
fn p3435() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3436() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3437() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3438() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3439() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3440() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3441() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3442() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,2,4>>(); } // accept matrix-sum
fn p3443() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,2,4>>(); } // accept matrix-sum-assign
fn p3444() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,2,4>>(); } // accept matrix-sum-assign
fn p3445() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,2,4>>(); } // accept matrix-sum-assign
fn p3446() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,2,4>>(); } // accept matrix-sum-assign
fn p3447() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // accept matrix-componentwise
fn p3448() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,2,4>>(); } // accept matrix-equality
fn p3449() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3450() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3451() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3452() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3453() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3454() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p3455() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p3456() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p3457() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p3458() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3459() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3460() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3461() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3462() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3463() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3464() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3465() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p3466() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3467() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3468() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3469() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p3470() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p3471() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p3472() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3473() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3474() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3475() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3476() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3477() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p3478() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p3479() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p3480() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p3481() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3482() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3483() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3484() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3485() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3486() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3487() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3488() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3489() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3490() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3491() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3492() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3493() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p3494() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p3495() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3496() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3497() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3498() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3499() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3500() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p3501() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p3502() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p3503() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p3504() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3505() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3506() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3507() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3508() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3509() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3510() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3511() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3512() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3513() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3514() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3515() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3516() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p3517() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p3518() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3519() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3520() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3521() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3522() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3523() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p3524() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p3525() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p3526() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p3527() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3528() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3529() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3530() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3531() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3532() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3533() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3534() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p3535() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3536() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3537() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3538() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p3539() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p3540() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p3541() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3542() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p3543() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p3544() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p3545() { let _: Matrix<f64,2,1> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p3546() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p3547() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p3548() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p3549() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p3550() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p3551() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p3552() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3553() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3554() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3555() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3556() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3557() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3558() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3559() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p3560() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3561() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3562() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3563() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p3564() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p3565() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p3566() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3567() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p3568() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p3569() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p3570() { let _: Matrix<f64,2,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p3571() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p3572() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p3573() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p3574() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p3575() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // accept matrix-dot
fn p3576() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p3577() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3578() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3579() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3580() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3581() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3582() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3583() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3584() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p3585() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3586() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3587() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3588() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p3589() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p3590() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p3591() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,2,4>>().transpose(); } // accept transpose-result
fn p3592() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p3593() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p3594() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p3595() { let _: Matrix<f64,2,3> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p3596() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p3597() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p3598() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p3599() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p3600() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p3601() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p3602() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3603() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3604() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3605() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3606() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3607() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3608() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3609() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p3610() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3611() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3612() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3613() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p3614() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p3615() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p3616() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3617() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p3618() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p3619() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p3620() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p3621() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,4>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p3622() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p3623() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,2,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p3624() { let _ = mk::<Matrix<f64,2,4>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p3625() { let _ = mk::<Matrix<f64,2,4>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p3626() { let _ = mk::<Matrix<f64,2,4>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p3627() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3628() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3629() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3630() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3631() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3632() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3633() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3634() { let _: Matrix<f64,2,4> = &mk::<Matrix<f64,2,4>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p3635() { let mut m = mk::<Matrix<f64,2,4>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3636() { let mut m = mk::<Matrix<f64,2,4>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3637() { let mut m = mk::<Matrix<f64,2,4>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3638() { let mut m = mk::<Matrix<f64,2,4>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p3639() { let _ = mk::<Matrix<f64,2,4>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p3640() { let _ = mk::<Matrix<f64,2,4>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p3641() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,2,4>>().transpose(); } // reject transpose-result
fn p3642() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3643() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3644() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3645() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p3646() { let _: Vector<f64,1> = mk::<Matrix<f64,2,4>>().row(0); } // reject row-result
fn p3647() { let _: Vector<f64,1> = mk::<Matrix<f64,2,4>>().column(0); } // reject column-result
fn p3648() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3649() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3650() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3651() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p3652() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>().row(0); } // reject row-result
fn p3653() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>().column(0); } // accept column-result
fn p3654() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p3655() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p3656() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p3657() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p3658() { let _: Vector<f64,3> = mk::<Matrix<f64,2,4>>().row(0); } // reject row-result
fn p3659() { let _: Vector<f64,3> = mk::<Matrix<f64,2,4>>().column(0); } // reject column-result
fn p3660() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p3661() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p3662() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p3663() { let _: Vector<f64,2> = &mk::<Matrix<f64,2,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p3664() { let _: Vector<f64,3> = mk::<Matrix<f64,2,4>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector-result
fn p3665() { let _: Vector<f64,4> = mk::<Matrix<f64,2,4>>().row(0); } // accept row-result
fn p3666() { let _: Vector<f64,4> = mk::<Matrix<f64,2,4>>().column(0); } // reject column-result
fn p3667() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p3668() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p3669() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p3670() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p3671() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p3672() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p3673() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p3674() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p3675() { let mut m = mk::<Matrix<f64,2,4>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p3676() { let _ = Matrix::<f64,2,4>::identity(); } // reject square-only
fn p3677() { let _ = Matrix::<f64,2,4>::from_diagonal_value(1.0); } // reject square-only
fn p3678() { let _ = Matrix::<f64,2,4>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p3679() { let _ = Matrix::<f64,2,4>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p3680() { let _ = Matrix::<f64,2,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p3681() { let _ = Matrix::<f64,2,4>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p3682() { let _ = Matrix::<f64,2,4>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p3683() { let _ = Matrix::<f64,2,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p3684() { let _ = Matrix::<f64,2,4>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p3685() { let _ = Matrix::<f64,2,4>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p3686() { let _ = Matrix::<f64,2,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p3687() { let _ = Matrix::<f64,2,4>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p3688() { let _ = Matrix::<f64,2,4>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p3689() { let _ = Matrix::<f64,2,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p3690() { let _: Vector<f64,1> = mk::<Matrix<f64,2,4>>().diagonal(); } // reject diagonal-result
fn p3691() { let _: Vector<f64,2> = mk::<Matrix<f64,2,4>>().diagonal(); } // reject diagonal-result
fn p3692() { let _: Vector<f64,3> = mk::<Matrix<f64,2,4>>().diagonal(); } // reject diagonal-result
fn p3693() { let _: Vector<f64,4> = mk::<Matrix<f64,2,4>>().diagonal(); } // reject diagonal-result
fn p3694() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;1]>()); } // reject flat-array
fn p3695() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p3696() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;2]>()); } // reject flat-array
fn p3697() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p3698() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;3]>()); } // reject flat-array
fn p3699() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p3700() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;4]>()); } // reject flat-array
fn p3701() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p3702() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;5]>()); } // reject flat-array
fn p3703() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p3704() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;6]>()); } // reject flat-array
fn p3705() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p3706() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;7]>()); } // reject flat-array
fn p3707() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p3708() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;8]>()); } // accept flat-array
fn p3709() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;8] = m.as_ref(); } // accept flat-array
fn p3710() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;9]>()); } // reject flat-array
fn p3711() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p3712() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;10]>()); } // reject flat-array
fn p3713() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p3714() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;11]>()); } // reject flat-array
fn p3715() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p3716() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;12]>()); } // reject flat-array
fn p3717() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p3718() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;13]>()); } // reject flat-array
fn p3719() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p3720() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;14]>()); } // reject flat-array
fn p3721() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p3722() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;15]>()); } // reject flat-array
fn p3723() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p3724() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;16]>()); } // reject flat-array
fn p3725() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p3726() { let _ = Matrix::<f64,2,4>::from(mk::<[f64;17]>()); } // reject flat-array
fn p3727() { let m = mk::<Matrix<f64,2,4>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p3728() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p3729() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p3730() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p3731() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p3732() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p3733() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p3734() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p3735() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p3736() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p3737() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p3738() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3739() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3740() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3741() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3742() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3743() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3744() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3745() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p3746() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3747() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3748() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3749() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p3750() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p3751() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p3752() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3753() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p3754() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p3755() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p3756() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p3757() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p3758() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p3759() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p3760() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p3761() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p3762() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p3763() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3764() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3765() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3766() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3767() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3768() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3769() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3770() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p3771() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3772() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3773() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3774() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p3775() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p3776() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p3777() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3778() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p3779() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p3780() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p3781() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p3782() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p3783() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p3784() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p3785() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p3786() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // accept matrix-dot
fn p3787() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p3788() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3789() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3790() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3791() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3792() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3793() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3794() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3795() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p3796() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3797() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3798() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3799() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p3800() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p3801() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p3802() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,1>>().transpose(); } // accept transpose-result
fn p3803() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p3804() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p3805() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p3806() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p3807() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p3808() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p3809() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p3810() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p3811() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p3812() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p3813() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3814() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3815() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3816() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3817() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3818() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3819() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3820() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p3821() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3822() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3823() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3824() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p3825() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p3826() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p3827() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3828() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3829() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3830() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3831() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p3832() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p3833() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p3834() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p3835() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p3836() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3837() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3838() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3839() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3840() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3841() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3842() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3843() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p3844() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3845() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3846() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3847() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p3848() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p3849() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p3850() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3851() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3852() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3853() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3854() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p3855() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p3856() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p3857() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p3858() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p3859() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3860() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3861() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3862() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3863() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3864() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3865() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3866() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p3867() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3868() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3869() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3870() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p3871() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p3872() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p3873() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3874() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3875() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3876() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3877() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p3878() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p3879() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p3880() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p3881() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p3882() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3883() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3884() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3885() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3886() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3887() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3888() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3889() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p3890() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3891() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3892() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3893() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p3894() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p3895() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p3896() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3897() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3898() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3899() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3900() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p3901() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p3902() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p3903() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p3904() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p3905() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3906() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3907() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3908() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3909() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3910() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3911() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3912() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p3913() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p3914() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p3915() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p3916() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p3917() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p3918() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p3919() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3920() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3921() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3922() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3923() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p3924() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // accept transposed-product
fn p3925() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product-result
fn p3926() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,3,1>>()); } // accept matrix-dot
fn p3927() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p3928() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // accept matrix-componentwise
fn p3929() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3930() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3931() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3932() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3933() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3934() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3935() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3936() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,1>>(); } // accept matrix-sum
fn p3937() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,3,1>>(); } // accept matrix-sum-assign
fn p3938() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,3,1>>(); } // accept matrix-sum-assign
fn p3939() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,3,1>>(); } // accept matrix-sum-assign
fn p3940() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,3,1>>(); } // accept matrix-sum-assign
fn p3941() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // accept matrix-componentwise
fn p3942() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,3,1>>(); } // accept matrix-equality
fn p3943() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3944() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3945() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3946() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3947() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p3948() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // accept transposed-product
fn p3949() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product-result
fn p3950() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p3951() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p3952() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p3953() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3954() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3955() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3956() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3957() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3958() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3959() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3960() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p3961() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3962() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3963() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3964() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p3965() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p3966() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p3967() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3968() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3969() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3970() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3971() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p3972() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // accept transposed-product
fn p3973() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product-result
fn p3974() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p3975() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p3976() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p3977() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3978() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3979() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3980() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3981() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3982() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3983() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3984() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p3985() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3986() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3987() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3988() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p3989() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p3990() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p3991() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p3992() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3993() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3994() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3995() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p3996() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // accept transposed-product
fn p3997() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product-result
fn p3998() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p3999() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p4000() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p4001() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4002() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4003() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4004() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4005() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4006() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4007() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4008() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4009() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4010() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4011() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4012() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4013() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p4014() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p4015() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p4016() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4017() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4018() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4019() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4020() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p4021() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p4022() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p4023() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p4024() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4025() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4026() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4027() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4028() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4029() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4030() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4031() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4032() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4033() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4034() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4035() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4036() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p4037() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p4038() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p4039() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4040() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4041() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4042() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4043() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p4044() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p4045() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p4046() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p4047() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4048() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4049() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4050() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4051() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4052() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4053() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4054() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4055() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4056() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4057() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4058() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4059() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p4060() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p4061() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p4062() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4063() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4064() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4065() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4066() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p4067() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p4068() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p4069() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p4070() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4071() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4072() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4073() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4074() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4075() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4076() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4077() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4078() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4079() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4080() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4081() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4082() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p4083() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p4084() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p4085() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4086() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4087() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4088() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4089() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,1>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p4090() { let _ = mk::<Matrix<f64,3,1>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p4091() { let _ = mk::<Matrix<f64,3,1>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p4092() { let _ = mk::<Matrix<f64,3,1>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p4093() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4094() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4095() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4096() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4097() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4098() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4099() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4100() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4101() { let mut m = mk::<Matrix<f64,3,1>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4102() { let mut m = mk::<Matrix<f64,3,1>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4103() { let mut m = mk::<Matrix<f64,3,1>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4104() { let mut m = mk::<Matrix<f64,3,1>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4105() { let _ = mk::<Matrix<f64,3,1>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p4106() { let _ = mk::<Matrix<f64,3,1>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p4107() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,1>>().transpose(); } // reject transpose-result
fn p4108() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p4109() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p4110() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p4111() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p4112() { let _: Vector<f64,4> = mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector-result
fn p4113() { let _: Vector<f64,1> = mk::<Matrix<f64,3,1>>().row(0); } // accept row-result
fn p4114() { let _: Vector<f64,1> = mk::<Matrix<f64,3,1>>().column(0); } // reject column-result
fn p4115() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p4116() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p4117() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p4118() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p4119() { let _: Vector<f64,2> = mk::<Matrix<f64,3,1>>().row(0); } // reject row-result
fn p4120() { let _: Vector<f64,2> = mk::<Matrix<f64,3,1>>().column(0); } // reject column-result
fn p4121() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4122() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4123() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4124() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4125() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>().row(0); } // reject row-result
fn p4126() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>().column(0); } // accept column-result
fn p4127() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4128() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4129() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4130() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4131() { let _: Vector<f64,4> = mk::<Matrix<f64,3,1>>().row(0); } // reject row-result
fn p4132() { let _: Vector<f64,4> = mk::<Matrix<f64,3,1>>().column(0); } // reject column-result
fn p4133() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p4134() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p4135() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p4136() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p4137() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p4138() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p4139() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p4140() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p4141() { let mut m = mk::<Matrix<f64,3,1>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p4142() { let _ = Matrix::<f64,3,1>::identity(); } // reject square-only
fn p4143() { let _ = Matrix::<f64,3,1>::from_diagonal_value(1.0); } // reject square-only
fn p4144() { let _ = Matrix::<f64,3,1>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p4145() { let _ = Matrix::<f64,3,1>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p4146() { let _ = Matrix::<f64,3,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p4147() { let _ = Matrix::<f64,3,1>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p4148() { let _ = Matrix::<f64,3,1>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p4149() { let _ = Matrix::<f64,3,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p4150() { let _ = Matrix::<f64,3,1>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p4151() { let _ = Matrix::<f64,3,1>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p4152() { let _ = Matrix::<f64,3,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p4153() { let _ = Matrix::<f64,3,1>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p4154() { let _ = Matrix::<f64,3,1>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p4155() { let _ = Matrix::<f64,3,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p4156() { let _: Vector<f64,1> = mk::<Matrix<f64,3,1>>().diagonal(); } // reject diagonal-result
fn p4157() { let _: Vector<f64,2> = mk::<Matrix<f64,3,1>>().diagonal(); } // reject diagonal-result
fn p4158() { let _: Vector<f64,3> = mk::<Matrix<f64,3,1>>().diagonal(); } // reject diagonal-result
fn p4159() { let _: Vector<f64,4> = mk::<Matrix<f64,3,1>>().diagonal(); } // reject diagonal-result
fn p4160() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;1]>()); } // reject flat-array
fn p4161() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p4162() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;2]>()); } // reject flat-array
fn p4163() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p4164() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;3]>()); } // accept flat-array
fn p4165() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;3] = m.as_ref(); } // accept flat-array
fn p4166() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;4]>()); } // reject flat-array
fn p4167() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p4168() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;5]>()); } // reject flat-array
fn p4169() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p4170() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;6]>()); } // reject flat-array
fn p4171() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p4172() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;7]>()); } // reject flat-array
fn p4173() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p4174() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;8]>()); } // reject flat-array
fn p4175() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p4176() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;9]>()); } // reject flat-array
fn p4177() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p4178() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;10]>()); } // reject flat-array
fn p4179() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p4180() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;11]>()); } // reject flat-array
fn p4181() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p4182() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;12]>()); } // reject flat-array
fn p4183() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p4184() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;13]>()); } // reject flat-array
fn p4185() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p4186() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;14]>()); } // reject flat-array
fn p4187() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p4188() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;15]>()); } // reject flat-array
fn p4189() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p4190() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;16]>()); } // reject flat-array
fn p4191() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p4192() { let _ = Matrix::<f64,3,1>::from(mk::<[f64;17]>()); } // reject flat-array
fn p4193() { let m = mk::<Matrix<f64,3,1>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p4194() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4195() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4196() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4197() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4198() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p4199() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p4200() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p4201() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p4202() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4203() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4204() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4205() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4206() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4207() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4208() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4209() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4210() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4211() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4212() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4213() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4214() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p4215() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p4216() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4217() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4218() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4219() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4220() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4221() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p4222() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p4223() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p4224() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p4225() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4226() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4227() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4228() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4229() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4230() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4231() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4232() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4233() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4234() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4235() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4236() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4237() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p4238() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p4239() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4240() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4241() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4242() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4243() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4244() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p4245() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p4246() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p4247() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p4248() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4249() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4250() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4251() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4252() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4253() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4254() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4255() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4256() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4257() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4258() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4259() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4260() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p4261() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p4262() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4263() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4264() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4265() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4266() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4267() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p4268() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p4269() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p4270() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p4271() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4272() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4273() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4274() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4275() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4276() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4277() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4278() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4279() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4280() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4281() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4282() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4283() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p4284() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p4285() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4286() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p4287() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p4288() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p4289() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p4290() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p4291() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p4292() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p4293() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p4294() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p4295() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p4296() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4297() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4298() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4299() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4300() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4301() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4302() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4303() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4304() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4305() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4306() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4307() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4308() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p4309() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p4310() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4311() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p4312() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p4313() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p4314() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p4315() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p4316() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p4317() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p4318() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p4319() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p4320() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p4321() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4322() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4323() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4324() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4325() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4326() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4327() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4328() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4329() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4330() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4331() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4332() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4333() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p4334() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p4335() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4336() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p4337() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p4338() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p4339() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p4340() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p4341() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p4342() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p4343() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p4344() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // accept matrix-dot
fn p4345() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p4346() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4347() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4348() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4349() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4350() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4351() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4352() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4353() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4354() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4355() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4356() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4357() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4358() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p4359() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p4360() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,2>>().transpose(); } // accept transpose-result
fn p4361() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p4362() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p4363() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p4364() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p4365() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p4366() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p4367() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p4368() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p4369() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p4370() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p4371() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4372() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4373() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4374() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4375() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4376() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4377() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4378() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4379() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4380() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4381() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4382() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4383() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p4384() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p4385() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4386() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p4387() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p4388() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p4389() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p4390() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // accept transposed-product
fn p4391() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product-result
fn p4392() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p4393() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p4394() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p4395() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4396() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4397() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4398() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4399() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4400() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4401() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4402() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4403() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4404() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4405() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4406() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4407() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p4408() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p4409() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4410() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p4411() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p4412() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p4413() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p4414() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // accept transposed-product
fn p4415() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product-result
fn p4416() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,3,2>>()); } // accept matrix-dot
fn p4417() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p4418() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // accept matrix-componentwise
fn p4419() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4420() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4421() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4422() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4423() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4424() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4425() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4426() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,2>>(); } // accept matrix-sum
fn p4427() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,3,2>>(); } // accept matrix-sum-assign
fn p4428() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,3,2>>(); } // accept matrix-sum-assign
fn p4429() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,3,2>>(); } // accept matrix-sum-assign
fn p4430() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,3,2>>(); } // accept matrix-sum-assign
fn p4431() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // accept matrix-componentwise
fn p4432() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,3,2>>(); } // accept matrix-equality
fn p4433() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4434() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p4435() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p4436() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p4437() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p4438() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // accept transposed-product
fn p4439() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product-result
fn p4440() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p4441() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p4442() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p4443() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4444() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4445() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4446() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4447() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4448() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4449() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4450() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p4451() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p4452() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p4453() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p4454() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p4455() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p4456() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p4457() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4458() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p4459() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p4460() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p4461() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p4462() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // accept transposed-product
fn p4463() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product-result
fn p4464() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p4465() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p4466() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p4467() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4468() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4469() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4470() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4471() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4472() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4473() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4474() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4475() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4476() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4477() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4478() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4479() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p4480() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p4481() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4482() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4483() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4484() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4485() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4486() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p4487() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p4488() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p4489() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p4490() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4491() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4492() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4493() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4494() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4495() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4496() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4497() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4498() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4499() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4500() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4501() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4502() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p4503() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p4504() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4505() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4506() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4507() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4508() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4509() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p4510() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p4511() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p4512() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p4513() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4514() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4515() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4516() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4517() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4518() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4519() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4520() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4521() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4522() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4523() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4524() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4525() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p4526() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p4527() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4528() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4529() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4530() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4531() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4532() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p4533() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p4534() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p4535() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p4536() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4537() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4538() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4539() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4540() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4541() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4542() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4543() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p4544() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4545() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4546() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4547() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p4548() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p4549() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p4550() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4551() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4552() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4553() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4554() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p4555() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,2>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p4556() { let _ = mk::<Matrix<f64,3,2>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p4557() { let _ = mk::<Matrix<f64,3,2>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p4558() { let _ = mk::<Matrix<f64,3,2>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p4559() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4560() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4561() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4562() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4563() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4564() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4565() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4566() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p4567() { let mut m = mk::<Matrix<f64,3,2>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4568() { let mut m = mk::<Matrix<f64,3,2>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4569() { let mut m = mk::<Matrix<f64,3,2>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4570() { let mut m = mk::<Matrix<f64,3,2>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p4571() { let _ = mk::<Matrix<f64,3,2>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p4572() { let _ = mk::<Matrix<f64,3,2>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p4573() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,2>>().transpose(); } // reject transpose-result
fn p4574() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p4575() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p4576() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p4577() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p4578() { let _: Vector<f64,1> = mk::<Matrix<f64,3,2>>().row(0); } // reject row-result
fn p4579() { let _: Vector<f64,1> = mk::<Matrix<f64,3,2>>().column(0); } // reject column-result
fn p4580() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p4581() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p4582() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p4583() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p4584() { let _: Vector<f64,4> = mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector-result
fn p4585() { let _: Vector<f64,2> = mk::<Matrix<f64,3,2>>().row(0); } // accept row-result
fn p4586() { let _: Vector<f64,2> = mk::<Matrix<f64,3,2>>().column(0); } // reject column-result
fn p4587() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4588() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4589() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4590() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p4591() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>().row(0); } // reject row-result
fn p4592() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>().column(0); } // accept column-result
fn p4593() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4594() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4595() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4596() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p4597() { let _: Vector<f64,4> = mk::<Matrix<f64,3,2>>().row(0); } // reject row-result
fn p4598() { let _: Vector<f64,4> = mk::<Matrix<f64,3,2>>().column(0); } // reject column-result
fn p4599() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p4600() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p4601() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p4602() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p4603() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p4604() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p4605() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p4606() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p4607() { let mut m = mk::<Matrix<f64,3,2>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p4608() { let _ = Matrix::<f64,3,2>::identity(); } // reject square-only
fn p4609() { let _ = Matrix::<f64,3,2>::from_diagonal_value(1.0); } // reject square-only
fn p4610() { let _ = Matrix::<f64,3,2>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p4611() { let _ = Matrix::<f64,3,2>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p4612() { let _ = Matrix::<f64,3,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p4613() { let _ = Matrix::<f64,3,2>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p4614() { let _ = Matrix::<f64,3,2>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p4615() { let _ = Matrix::<f64,3,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p4616() { let _ = Matrix::<f64,3,2>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p4617() { let _ = Matrix::<f64,3,2>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p4618() { let _ = Matrix::<f64,3,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p4619() { let _ = Matrix::<f64,3,2>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p4620() { let _ = Matrix::<f64,3,2>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p4621() { let _ = Matrix::<f64,3,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p4622() { let _: Vector<f64,1> = mk::<Matrix<f64,3,2>>().diagonal(); } // reject diagonal-result
fn p4623() { let _: Vector<f64,2> = mk::<Matrix<f64,3,2>>().diagonal(); } // reject diagonal-result
fn p4624() { let _: Vector<f64,3> = mk::<Matrix<f64,3,2>>().diagonal(); } // reject diagonal-result
fn p4625() { let _: Vector<f64,4> = mk::<Matrix<f64,3,2>>().diagonal(); } // reject diagonal-result
fn p4626() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;1]>()); } // reject flat-array
fn p4627() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p4628() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;2]>()); } // reject flat-array
fn p4629() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p4630() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;3]>()); } // reject flat-array
fn p4631() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p4632() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;4]>()); } // reject flat-array
fn p4633() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p4634() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;5]>()); } // reject flat-array
fn p4635() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p4636() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;6]>()); } // accept flat-array
fn p4637() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;6] = m.as_ref(); } // accept flat-array
fn p4638() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;7]>()); } // reject flat-array
fn p4639() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p4640() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;8]>()); } // reject flat-array
fn p4641() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p4642() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;9]>()); } // reject flat-array
fn p4643() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p4644() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;10]>()); } // reject flat-array
fn p4645() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p4646() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;11]>()); } // reject flat-array
fn p4647() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p4648() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;12]>()); } // reject flat-array
fn p4649() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p4650() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;13]>()); } // reject flat-array
fn p4651() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p4652() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;14]>()); } // reject flat-array
fn p4653() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p4654() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;15]>()); } // reject flat-array
fn p4655() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p4656() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;16]>()); } // reject flat-array
fn p4657() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p4658() { let _ = Matrix::<f64,3,2>::from(mk::<[f64;17]>()); } // reject flat-array
fn p4659() { let m = mk::<Matrix<f64,3,2>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p4660() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4661() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4662() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4663() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p4664() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p4665() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p4666() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p4667() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p4668() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4669() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4670() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4671() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4672() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4673() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4674() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4675() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p4676() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4677() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4678() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4679() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p4680() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p4681() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p4682() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4683() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4684() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4685() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4686() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p4687() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p4688() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p4689() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p4690() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p4691() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4692() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4693() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4694() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4695() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4696() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4697() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4698() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p4699() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4700() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4701() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4702() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p4703() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p4704() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p4705() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4706() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4707() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4708() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4709() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p4710() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p4711() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p4712() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p4713() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p4714() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4715() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4716() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4717() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4718() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4719() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4720() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4721() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p4722() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4723() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4724() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4725() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p4726() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p4727() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p4728() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4729() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4730() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4731() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4732() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p4733() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p4734() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p4735() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p4736() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p4737() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4738() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4739() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4740() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4741() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4742() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4743() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4744() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p4745() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4746() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4747() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4748() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p4749() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p4750() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p4751() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4752() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p4753() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p4754() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p4755() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p4756() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p4757() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p4758() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p4759() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p4760() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4761() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4762() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4763() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4764() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4765() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4766() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4767() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p4768() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4769() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4770() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4771() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p4772() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p4773() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p4774() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4775() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p4776() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p4777() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p4778() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p4779() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p4780() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p4781() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p4782() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p4783() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4784() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4785() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4786() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4787() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4788() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4789() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4790() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p4791() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4792() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4793() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4794() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p4795() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p4796() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p4797() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4798() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p4799() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p4800() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p4801() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p4802() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p4803() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p4804() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p4805() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p4806() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4807() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4808() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4809() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4810() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4811() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4812() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4813() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p4814() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4815() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4816() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4817() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p4818() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p4819() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p4820() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4821() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p4822() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p4823() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p4824() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p4825() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p4826() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p4827() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p4828() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p4829() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4830() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4831() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4832() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4833() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4834() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4835() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4836() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p4837() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4838() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4839() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4840() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p4841() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p4842() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p4843() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4844() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p4845() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p4846() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p4847() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p4848() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // accept transposed-product
fn p4849() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p4850() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p4851() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product-result
fn p4852() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p4853() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p4854() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p4855() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4856() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4857() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4858() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4859() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4860() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4861() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4862() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p4863() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4864() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4865() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4866() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p4867() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p4868() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p4869() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4870() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p4871() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p4872() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p4873() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p4874() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // accept transposed-product
fn p4875() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p4876() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p4877() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product-result
fn p4878() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p4879() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p4880() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p4881() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4882() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4883() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4884() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4885() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4886() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4887() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4888() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p4889() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p4890() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p4891() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p4892() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p4893() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p4894() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p4895() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4896() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p4897() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p4898() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p4899() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p4900() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // accept transposed-product
fn p4901() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p4902() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p4903() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product-result
fn p4904() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,3,3>>()); } // accept matrix-dot
fn p4905() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // accept matrix-dot
fn p4906() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // accept matrix-componentwise
fn p4907() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4908() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4909() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4910() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4911() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4912() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4913() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4914() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,3>>(); } // accept matrix-sum
fn p4915() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,3,3>>(); } // accept matrix-sum-assign
fn p4916() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,3,3>>(); } // accept matrix-sum-assign
fn p4917() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,3,3>>(); } // accept matrix-sum-assign
fn p4918() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,3,3>>(); } // accept matrix-sum-assign
fn p4919() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // accept matrix-componentwise
fn p4920() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,3,3>>(); } // accept matrix-equality
fn p4921() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>().transpose(); } // accept transpose-result
fn p4922() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p4923() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p4924() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p4925() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p4926() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // accept transposed-product
fn p4927() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p4928() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p4929() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product-result
fn p4930() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p4931() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p4932() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p4933() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4934() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4935() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4936() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4937() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4938() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4939() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4940() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p4941() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4942() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4943() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4944() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p4945() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p4946() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p4947() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4948() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4949() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4950() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4951() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p4952() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p4953() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p4954() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p4955() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p4956() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4957() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4958() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4959() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4960() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4961() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4962() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4963() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p4964() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4965() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4966() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4967() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p4968() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p4969() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p4970() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4971() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4972() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4973() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4974() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p4975() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p4976() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p4977() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p4978() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p4979() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4980() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4981() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4982() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4983() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4984() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4985() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4986() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p4987() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4988() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4989() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4990() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p4991() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p4992() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p4993() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p4994() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4995() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4996() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4997() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p4998() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p4999() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p5000() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p5001() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p5002() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5003() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5004() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5005() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5006() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5007() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5008() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5009() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5010() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5011() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5012() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5013() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5014() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p5015() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p5016() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p5017() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5018() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5019() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5020() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5021() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,3>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p5022() { let _ = mk::<Matrix<f64,3,3>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p5023() { let _ = mk::<Matrix<f64,3,3>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p5024() { let _ = mk::<Matrix<f64,3,3>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p5025() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5026() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5027() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5028() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5029() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5030() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5031() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5032() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5033() { let mut m = mk::<Matrix<f64,3,3>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5034() { let mut m = mk::<Matrix<f64,3,3>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5035() { let mut m = mk::<Matrix<f64,3,3>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5036() { let mut m = mk::<Matrix<f64,3,3>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5037() { let _ = mk::<Matrix<f64,3,3>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p5038() { let _ = mk::<Matrix<f64,3,3>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p5039() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,3>>().transpose(); } // reject transpose-result
fn p5040() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5041() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5042() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5043() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5044() { let _: Vector<f64,1> = mk::<Matrix<f64,3,3>>().row(0); } // reject row-result
fn p5045() { let _: Vector<f64,1> = mk::<Matrix<f64,3,3>>().column(0); } // reject column-result
fn p5046() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5047() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5048() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5049() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5050() { let _: Vector<f64,2> = mk::<Matrix<f64,3,3>>().row(0); } // reject row-result
fn p5051() { let _: Vector<f64,2> = mk::<Matrix<f64,3,3>>().column(0); } // reject column-result
fn p5052() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p5053() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p5054() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p5055() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p5056() { let _: Vector<f64,4> = mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector-result
fn p5057() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>().row(0); } // accept row-result
fn p5058() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>().column(0); } // accept column-result
fn p5059() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5060() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5061() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5062() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5063() { let _: Vector<f64,4> = mk::<Matrix<f64,3,3>>().row(0); } // reject row-result
fn p5064() { let _: Vector<f64,4> = mk::<Matrix<f64,3,3>>().column(0); } // reject column-result
fn p5065() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.trace(); m = m.clone(); } // accept square-only
fn p5066() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.transpose_mut(); m = m.clone(); } // accept square-only
fn p5067() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.is_diagonal(); m = m.clone(); } // accept square-only
fn p5068() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.is_symmetric(); m = m.clone(); } // accept square-only
fn p5069() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.determinant(); m = m.clone(); } // accept square-only
fn p5070() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.inverse(); m = m.clone(); } // accept square-only
fn p5071() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.try_inverse(); m = m.clone(); } // accept square-only
fn p5072() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.is_invertible(); m = m.clone(); } // accept square-only
fn p5073() { let mut m = mk::<Matrix<f64,3,3>>(); let _ = m.is_identity(); m = m.clone(); } // accept square-only
fn p5074() { let _ = Matrix::<f64,3,3>::identity(); } // accept square-only
fn p5075() { let _ = Matrix::<f64,3,3>::from_diagonal_value(1.0); } // accept square-only
fn p5076() { let _ = Matrix::<f64,3,3>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p5077() { let _ = Matrix::<f64,3,3>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p5078() { let _ = Matrix::<f64,3,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p5079() { let _ = Matrix::<f64,3,3>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p5080() { let _ = Matrix::<f64,3,3>::from_affine_translation(&mk::<Vector<f64,2>>()); } // accept affine-size
fn p5081() { let _ = Matrix::<f64,3,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // accept affine-size
fn p5082() { let _ = Matrix::<f64,3,3>::from_diagonal(&mk::<Vector<f64,3>>()); } // accept square-only
fn p5083() { let _ = Matrix::<f64,3,3>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p5084() { let _ = Matrix::<f64,3,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p5085() { let _ = Matrix::<f64,3,3>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p5086() { let _ = Matrix::<f64,3,3>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p5087() { let _ = Matrix::<f64,3,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p5088() { let _: Vector<f64,1> = mk::<Matrix<f64,3,3>>().diagonal(); } // reject diagonal-result
fn p5089() { let _: Vector<f64,2> = mk::<Matrix<f64,3,3>>().diagonal(); } // reject diagonal-result
fn p5090() { let _: Vector<f64,3> = mk::<Matrix<f64,3,3>>().diagonal(); } // accept diagonal-result
fn p5091() { let _: Vector<f64,4> = mk::<Matrix<f64,3,3>>().diagonal(); } // reject diagonal-result
fn p5092() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;1]>()); } // reject flat-array
fn p5093() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p5094() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;2]>()); } // reject flat-array
fn p5095() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p5096() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;3]>()); } // reject flat-array
fn p5097() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p5098() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;4]>()); } // reject flat-array
fn p5099() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p5100() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;5]>()); } // reject flat-array
fn p5101() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p5102() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;6]>()); } // reject flat-array
fn p5103() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p5104() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;7]>()); } // reject flat-array
fn p5105() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p5106() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;8]>()); } // reject flat-array
fn p5107() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p5108() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;9]>()); } // accept flat-array
fn p5109() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;9] = m.as_ref(); } // accept flat-array
fn p5110() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;10]>()); } // reject flat-array
fn p5111() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p5112() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;11]>()); } // reject flat-array
fn p5113() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p5114() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;12]>()); } // reject flat-array
fn p5115() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p5116() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;13]>()); } // reject flat-array
fn p5117() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p5118() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;14]>()); } // reject flat-array
fn p5119() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p5120() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;15]>()); } // reject flat-array
fn p5121() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p5122() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;16]>()); } // reject flat-array
fn p5123() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p5124() { let _ = Matrix::<f64,3,3>::from(mk::<[f64;17]>()); } // reject flat-array
fn p5125() { let m = mk::<Matrix<f64,3,3>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p5126() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p5127() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p5128() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p5129() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p5130() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p5131() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p5132() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p5133() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p5134() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5135() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5136() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5137() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5138() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5139() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5140() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5141() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5142() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5143() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5144() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5145() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5146() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p5147() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p5148() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5149() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p5150() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p5151() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p5152() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p5153() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p5154() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p5155() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p5156() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p5157() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5158() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5159() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5160() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5161() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5162() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5163() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5164() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5165() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5166() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5167() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5168() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5169() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p5170() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p5171() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5172() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p5173() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p5174() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p5175() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p5176() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p5177() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p5178() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p5179() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p5180() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5181() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5182() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5183() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5184() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5185() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5186() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5187() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5188() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5189() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5190() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5191() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5192() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p5193() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p5194() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5195() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p5196() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p5197() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p5198() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p5199() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p5200() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p5201() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p5202() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p5203() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5204() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5205() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5206() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5207() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5208() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5209() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5210() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5211() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5212() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5213() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5214() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5215() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p5216() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p5217() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5218() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5219() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5220() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5221() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5222() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p5223() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p5224() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p5225() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p5226() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5227() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5228() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5229() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5230() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5231() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5232() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5233() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5234() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5235() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5236() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5237() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5238() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p5239() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p5240() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5241() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5242() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5243() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5244() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5245() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p5246() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p5247() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p5248() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p5249() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5250() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5251() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5252() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5253() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5254() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5255() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5256() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5257() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5258() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5259() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5260() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5261() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p5262() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p5263() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5264() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5265() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5266() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5267() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5268() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p5269() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p5270() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p5271() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p5272() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5273() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5274() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5275() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5276() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5277() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5278() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5279() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5280() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5281() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5282() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5283() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5284() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p5285() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p5286() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5287() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5288() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5289() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5290() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5291() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p5292() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p5293() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p5294() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p5295() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5296() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5297() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5298() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5299() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5300() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5301() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5302() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5303() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5304() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5305() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5306() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5307() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p5308() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p5309() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5310() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5311() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5312() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5313() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5314() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // accept transposed-product
fn p5315() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product-result
fn p5316() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p5317() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p5318() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p5319() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5320() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5321() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5322() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5323() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5324() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5325() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5326() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5327() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5328() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5329() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5330() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5331() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p5332() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p5333() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5334() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5335() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5336() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5337() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5338() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // accept transposed-product
fn p5339() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product-result
fn p5340() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p5341() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p5342() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p5343() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5344() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5345() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5346() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5347() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5348() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5349() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5350() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5351() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5352() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5353() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5354() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5355() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p5356() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p5357() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5358() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5359() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5360() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5361() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5362() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // accept transposed-product
fn p5363() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product-result
fn p5364() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p5365() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p5366() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p5367() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5368() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5369() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5370() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5371() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5372() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5373() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5374() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5375() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5376() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5377() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5378() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5379() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p5380() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p5381() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5382() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5383() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5384() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5385() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5386() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // accept transposed-product
fn p5387() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product-result
fn p5388() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,3,4>>()); } // accept matrix-dot
fn p5389() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p5390() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // accept matrix-componentwise
fn p5391() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5392() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5393() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5394() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5395() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5396() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5397() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5398() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,3,4>>(); } // accept matrix-sum
fn p5399() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,3,4>>(); } // accept matrix-sum-assign
fn p5400() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,3,4>>(); } // accept matrix-sum-assign
fn p5401() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,3,4>>(); } // accept matrix-sum-assign
fn p5402() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,3,4>>(); } // accept matrix-sum-assign
fn p5403() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // accept matrix-componentwise
fn p5404() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,3,4>>(); } // accept matrix-equality
fn p5405() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5406() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p5407() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p5408() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p5409() { let _: Matrix<f64,3,1> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p5410() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product
fn p5411() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p5412() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p5413() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p5414() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p5415() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p5416() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5417() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5418() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5419() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5420() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5421() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5422() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5423() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p5424() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p5425() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p5426() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p5427() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p5428() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p5429() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p5430() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5431() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p5432() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p5433() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p5434() { let _: Matrix<f64,3,2> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p5435() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product
fn p5436() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p5437() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p5438() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p5439() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p5440() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p5441() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5442() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5443() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5444() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5445() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5446() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5447() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5448() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5449() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5450() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5451() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5452() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5453() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p5454() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p5455() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5456() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p5457() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p5458() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p5459() { let _: Matrix<f64,3,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p5460() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product
fn p5461() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p5462() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p5463() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p5464() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // accept matrix-dot
fn p5465() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p5466() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5467() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5468() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5469() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5470() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5471() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5472() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5473() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5474() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5475() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5476() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5477() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5478() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p5479() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p5480() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,3,4>>().transpose(); } // accept transpose-result
fn p5481() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p5482() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p5483() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p5484() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p5485() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,4>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product
fn p5486() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p5487() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p5488() { let _ = mk::<Matrix<f64,3,4>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p5489() { let _ = mk::<Matrix<f64,3,4>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p5490() { let _ = mk::<Matrix<f64,3,4>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p5491() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5492() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5493() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5494() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5495() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5496() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5497() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5498() { let _: Matrix<f64,3,4> = &mk::<Matrix<f64,3,4>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5499() { let mut m = mk::<Matrix<f64,3,4>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5500() { let mut m = mk::<Matrix<f64,3,4>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5501() { let mut m = mk::<Matrix<f64,3,4>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5502() { let mut m = mk::<Matrix<f64,3,4>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5503() { let _ = mk::<Matrix<f64,3,4>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p5504() { let _ = mk::<Matrix<f64,3,4>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p5505() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,3,4>>().transpose(); } // reject transpose-result
fn p5506() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5507() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5508() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5509() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p5510() { let _: Vector<f64,1> = mk::<Matrix<f64,3,4>>().row(0); } // reject row-result
fn p5511() { let _: Vector<f64,1> = mk::<Matrix<f64,3,4>>().column(0); } // reject column-result
fn p5512() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5513() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5514() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5515() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5516() { let _: Vector<f64,2> = mk::<Matrix<f64,3,4>>().row(0); } // reject row-result
fn p5517() { let _: Vector<f64,2> = mk::<Matrix<f64,3,4>>().column(0); } // reject column-result
fn p5518() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5519() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5520() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5521() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5522() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>().row(0); } // reject row-result
fn p5523() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>().column(0); } // accept column-result
fn p5524() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p5525() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p5526() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p5527() { let _: Vector<f64,3> = &mk::<Matrix<f64,3,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p5528() { let _: Vector<f64,4> = mk::<Matrix<f64,3,4>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector-result
fn p5529() { let _: Vector<f64,4> = mk::<Matrix<f64,3,4>>().row(0); } // accept row-result
fn p5530() { let _: Vector<f64,4> = mk::<Matrix<f64,3,4>>().column(0); } // reject column-result
fn p5531() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p5532() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p5533() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p5534() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p5535() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p5536() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p5537() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p5538() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p5539() { let mut m = mk::<Matrix<f64,3,4>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p5540() { let _ = Matrix::<f64,3,4>::identity(); } // reject square-only
fn p5541() { let _ = Matrix::<f64,3,4>::from_diagonal_value(1.0); } // reject square-only
fn p5542() { let _ = Matrix::<f64,3,4>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p5543() { let _ = Matrix::<f64,3,4>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p5544() { let _ = Matrix::<f64,3,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p5545() { let _ = Matrix::<f64,3,4>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p5546() { let _ = Matrix::<f64,3,4>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p5547() { let _ = Matrix::<f64,3,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p5548() { let _ = Matrix::<f64,3,4>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p5549() { let _ = Matrix::<f64,3,4>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p5550() { let _ = Matrix::<f64,3,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p5551() { let _ = Matrix::<f64,3,4>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p5552() { let _ = Matrix::<f64,3,4>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p5553() { let _ = Matrix::<f64,3,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p5554() { let _: Vector<f64,1> = mk::<Matrix<f64,3,4>>().diagonal(); } // reject diagonal-result
fn p5555() { let _: Vector<f64,2> = mk::<Matrix<f64,3,4>>().diagonal(); } // reject diagonal-result
fn p5556() { let _: Vector<f64,3> = mk::<Matrix<f64,3,4>>().diagonal(); } // reject diagonal-result
fn p5557() { let _: Vector<f64,4> = mk::<Matrix<f64,3,4>>().diagonal(); } // reject diagonal-result
fn p5558() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;1]>()); } // reject flat-array
fn p5559() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p5560() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;2]>()); } // reject flat-array
fn p5561() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p5562() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;3]>()); } // reject flat-array
fn p5563() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p5564() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;4]>()); } // reject flat-array
fn p5565() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p5566() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;5]>()); } // reject flat-array
fn p5567() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p5568() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;6]>()); } // reject flat-array
fn p5569() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p5570() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;7]>()); } // reject flat-array
fn p5571() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p5572() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;8]>()); } // reject flat-array
fn p5573() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p5574() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;9]>()); } // reject flat-array
fn p5575() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p5576() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;10]>()); } // reject flat-array
fn p5577() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p5578() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;11]>()); } // reject flat-array
fn p5579() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p5580() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;12]>()); } // accept flat-array
fn p5581() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;12] = m.as_ref(); } // accept flat-array
fn p5582() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;13]>()); } // reject flat-array
fn p5583() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p5584() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;14]>()); } // reject flat-array
fn p5585() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p5586() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;15]>()); } // reject flat-array
fn p5587() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p5588() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;16]>()); } // reject flat-array
fn p5589() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p5590() { let _ = Matrix::<f64,3,4>::from(mk::<[f64;17]>()); } // reject flat-array
fn p5591() { let m = mk::<Matrix<f64,3,4>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p5592() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p5593() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p5594() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p5595() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,1>>(); } // accept matrix-product
fn p5596() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p5597() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p5598() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product-result
fn p5599() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p5600() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p5601() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p5602() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5603() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5604() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5605() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5606() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5607() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5608() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5609() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p5610() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5611() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5612() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5613() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p5614() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p5615() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p5616() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5617() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p5618() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p5619() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p5620() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,2>>(); } // accept matrix-product
fn p5621() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p5622() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p5623() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product-result
fn p5624() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p5625() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p5626() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p5627() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5628() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5629() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5630() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5631() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5632() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5633() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5634() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p5635() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5636() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5637() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5638() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p5639() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p5640() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p5641() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5642() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p5643() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p5644() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p5645() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,3>>(); } // accept matrix-product
fn p5646() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p5647() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p5648() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product-result
fn p5649() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p5650() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p5651() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p5652() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5653() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5654() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5655() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5656() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5657() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5658() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5659() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p5660() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5661() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5662() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5663() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p5664() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p5665() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p5666() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5667() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p5668() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p5669() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p5670() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,1,4>>(); } // accept matrix-product
fn p5671() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p5672() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p5673() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product-result
fn p5674() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p5675() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // accept matrix-dot
fn p5676() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p5677() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5678() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5679() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5680() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5681() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5682() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5683() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5684() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p5685() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5686() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5687() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5688() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p5689() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p5690() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p5691() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,1>>().transpose(); } // accept transpose-result
fn p5692() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5693() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5694() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5695() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p5696() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p5697() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p5698() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p5699() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p5700() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5701() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5702() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5703() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5704() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5705() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5706() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5707() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p5708() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5709() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5710() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5711() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p5712() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p5713() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p5714() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5715() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5716() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5717() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5718() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p5719() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p5720() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p5721() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p5722() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p5723() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5724() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5725() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5726() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5727() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5728() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5729() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5730() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p5731() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5732() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5733() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5734() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p5735() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p5736() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p5737() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5738() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5739() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5740() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5741() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p5742() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p5743() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p5744() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p5745() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p5746() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5747() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5748() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5749() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5750() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5751() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5752() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5753() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p5754() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5755() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5756() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5757() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p5758() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p5759() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p5760() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5761() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5762() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5763() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5764() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p5765() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p5766() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p5767() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p5768() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p5769() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5770() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5771() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5772() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5773() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5774() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5775() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5776() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p5777() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5778() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5779() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5780() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p5781() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p5782() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p5783() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5784() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5785() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5786() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5787() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p5788() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p5789() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p5790() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p5791() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p5792() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5793() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5794() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5795() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5796() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5797() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5798() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5799() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p5800() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5801() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5802() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5803() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p5804() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p5805() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p5806() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5807() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5808() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5809() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5810() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p5811() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p5812() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p5813() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p5814() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p5815() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5816() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5817() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5818() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5819() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5820() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5821() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5822() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p5823() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5824() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5825() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5826() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p5827() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p5828() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p5829() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5830() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5831() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5832() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5833() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p5834() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p5835() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p5836() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p5837() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p5838() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5839() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5840() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5841() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5842() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5843() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5844() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5845() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p5846() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5847() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5848() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5849() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p5850() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p5851() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p5852() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5853() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5854() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5855() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5856() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p5857() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p5858() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p5859() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p5860() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p5861() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5862() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5863() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5864() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5865() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5866() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5867() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5868() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p5869() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p5870() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p5871() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p5872() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p5873() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p5874() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p5875() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5876() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p5877() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p5878() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p5879() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p5880() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // accept transposed-product
fn p5881() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product-result
fn p5882() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,4,1>>()); } // accept matrix-dot
fn p5883() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p5884() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // accept matrix-componentwise
fn p5885() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5886() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5887() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5888() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5889() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5890() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5891() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5892() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,1>>(); } // accept matrix-sum
fn p5893() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,4,1>>(); } // accept matrix-sum-assign
fn p5894() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,4,1>>(); } // accept matrix-sum-assign
fn p5895() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,4,1>>(); } // accept matrix-sum-assign
fn p5896() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,4,1>>(); } // accept matrix-sum-assign
fn p5897() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // accept matrix-componentwise
fn p5898() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,4,1>>(); } // accept matrix-equality
fn p5899() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5900() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p5901() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p5902() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p5903() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p5904() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // accept transposed-product
fn p5905() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product-result
fn p5906() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p5907() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p5908() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p5909() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5910() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5911() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5912() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5913() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5914() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5915() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5916() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p5917() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5918() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5919() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5920() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p5921() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p5922() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p5923() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5924() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p5925() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p5926() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p5927() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p5928() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // accept transposed-product
fn p5929() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product-result
fn p5930() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p5931() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p5932() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p5933() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5934() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5935() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5936() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5937() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5938() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5939() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5940() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p5941() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5942() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5943() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5944() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p5945() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p5946() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p5947() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5948() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5949() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5950() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5951() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p5952() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // accept transposed-product
fn p5953() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,1>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product-result
fn p5954() { let _ = mk::<Matrix<f64,4,1>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p5955() { let _ = mk::<Matrix<f64,4,1>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p5956() { let _ = mk::<Matrix<f64,4,1>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p5957() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5958() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5959() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5960() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5961() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5962() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5963() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5964() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,1>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p5965() { let mut m = mk::<Matrix<f64,4,1>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5966() { let mut m = mk::<Matrix<f64,4,1>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5967() { let mut m = mk::<Matrix<f64,4,1>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5968() { let mut m = mk::<Matrix<f64,4,1>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p5969() { let _ = mk::<Matrix<f64,4,1>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p5970() { let _ = mk::<Matrix<f64,4,1>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p5971() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,1>>().transpose(); } // reject transpose-result
fn p5972() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p5973() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p5974() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p5975() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,1>>(); } // accept matrix-vector
fn p5976() { let _: Vector<f64,1> = mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector-result
fn p5977() { let _: Vector<f64,1> = mk::<Matrix<f64,4,1>>().row(0); } // accept row-result
fn p5978() { let _: Vector<f64,1> = mk::<Matrix<f64,4,1>>().column(0); } // reject column-result
fn p5979() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5980() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5981() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5982() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p5983() { let _: Vector<f64,2> = mk::<Matrix<f64,4,1>>().row(0); } // reject row-result
fn p5984() { let _: Vector<f64,2> = mk::<Matrix<f64,4,1>>().column(0); } // reject column-result
fn p5985() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5986() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5987() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5988() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p5989() { let _: Vector<f64,3> = mk::<Matrix<f64,4,1>>().row(0); } // reject row-result
fn p5990() { let _: Vector<f64,3> = mk::<Matrix<f64,4,1>>().column(0); } // reject column-result
fn p5991() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5992() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5993() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5994() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,1>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p5995() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>().row(0); } // reject row-result
fn p5996() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>().column(0); } // accept column-result
fn p5997() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p5998() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p5999() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p6000() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p6001() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p6002() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p6003() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p6004() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p6005() { let mut m = mk::<Matrix<f64,4,1>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p6006() { let _ = Matrix::<f64,4,1>::identity(); } // reject square-only
fn p6007() { let _ = Matrix::<f64,4,1>::from_diagonal_value(1.0); } // reject square-only
fn p6008() { let _ = Matrix::<f64,4,1>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p6009() { let _ = Matrix::<f64,4,1>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p6010() { let _ = Matrix::<f64,4,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p6011() { let _ = Matrix::<f64,4,1>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p6012() { let _ = Matrix::<f64,4,1>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p6013() { let _ = Matrix::<f64,4,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p6014() { let _ = Matrix::<f64,4,1>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p6015() { let _ = Matrix::<f64,4,1>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p6016() { let _ = Matrix::<f64,4,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p6017() { let _ = Matrix::<f64,4,1>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p6018() { let _ = Matrix::<f64,4,1>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p6019() { let _ = Matrix::<f64,4,1>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p6020() { let _: Vector<f64,1> = mk::<Matrix<f64,4,1>>().diagonal(); } // reject diagonal-result
fn p6021() { let _: Vector<f64,2> = mk::<Matrix<f64,4,1>>().diagonal(); } // reject diagonal-result
fn p6022() { let _: Vector<f64,3> = mk::<Matrix<f64,4,1>>().diagonal(); } // reject diagonal-result
fn p6023() { let _: Vector<f64,4> = mk::<Matrix<f64,4,1>>().diagonal(); } // reject diagonal-result
fn p6024() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;1]>()); } // reject flat-array
fn p6025() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p6026() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;2]>()); } // reject flat-array
fn p6027() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p6028() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;3]>()); } // reject flat-array
fn p6029() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p6030() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;4]>()); } // accept flat-array
fn p6031() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;4] = m.as_ref(); } // accept flat-array
fn p6032() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;5]>()); } // reject flat-array
fn p6033() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p6034() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;6]>()); } // reject flat-array
fn p6035() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p6036() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;7]>()); } // reject flat-array
fn p6037() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p6038() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;8]>()); } // reject flat-array
fn p6039() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p6040() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;9]>()); } // reject flat-array
fn p6041() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p6042() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;10]>()); } // reject flat-array
fn p6043() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p6044() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;11]>()); } // reject flat-array
fn p6045() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p6046() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;12]>()); } // reject flat-array
fn p6047() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p6048() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;13]>()); } // reject flat-array
fn p6049() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p6050() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;14]>()); } // reject flat-array
fn p6051() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p6052() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;15]>()); } // reject flat-array
fn p6053() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p6054() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;16]>()); } // reject flat-array
fn p6055() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p6056() { let _ = Matrix::<f64,4,1>::from(mk::<[f64;17]>()); } // reject flat-array
fn p6057() { let m = mk::<Matrix<f64,4,1>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p6058() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6059() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6060() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6061() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6062() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p6063() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p6064() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p6065() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p6066() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6067() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6068() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6069() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6070() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6071() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6072() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6073() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6074() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6075() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6076() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6077() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6078() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p6079() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p6080() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6081() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6082() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6083() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6084() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6085() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p6086() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p6087() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p6088() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p6089() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6090() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6091() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6092() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6093() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6094() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6095() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6096() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6097() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6098() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6099() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6100() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6101() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p6102() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p6103() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6104() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6105() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6106() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6107() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6108() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p6109() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p6110() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p6111() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p6112() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6113() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6114() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6115() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6116() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6117() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6118() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6119() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6120() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6121() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6122() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6123() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6124() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p6125() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p6126() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6127() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6128() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6129() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6130() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6131() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p6132() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p6133() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p6134() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p6135() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6136() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6137() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6138() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6139() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6140() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6141() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6142() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6143() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6144() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6145() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6146() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6147() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p6148() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p6149() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6150() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p6151() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p6152() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p6153() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,1>>(); } // accept matrix-product
fn p6154() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p6155() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p6156() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product-result
fn p6157() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p6158() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p6159() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p6160() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6161() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6162() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6163() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6164() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6165() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6166() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6167() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6168() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6169() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6170() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6171() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6172() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p6173() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p6174() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6175() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p6176() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p6177() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p6178() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,2>>(); } // accept matrix-product
fn p6179() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p6180() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p6181() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product-result
fn p6182() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p6183() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p6184() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p6185() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6186() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6187() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6188() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6189() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6190() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6191() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6192() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6193() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6194() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6195() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6196() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6197() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p6198() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p6199() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6200() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p6201() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p6202() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p6203() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,3>>(); } // accept matrix-product
fn p6204() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p6205() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p6206() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product-result
fn p6207() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p6208() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p6209() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p6210() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6211() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6212() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6213() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6214() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6215() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6216() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6217() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6218() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6219() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6220() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6221() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6222() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p6223() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p6224() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6225() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p6226() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p6227() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p6228() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,2,4>>(); } // accept matrix-product
fn p6229() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p6230() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p6231() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product-result
fn p6232() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p6233() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // accept matrix-dot
fn p6234() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p6235() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6236() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6237() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6238() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6239() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6240() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6241() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6242() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6243() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6244() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6245() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6246() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6247() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p6248() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p6249() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,2>>().transpose(); } // accept transpose-result
fn p6250() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p6251() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p6252() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p6253() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p6254() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p6255() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p6256() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p6257() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p6258() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6259() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6260() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6261() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6262() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6263() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6264() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6265() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6266() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6267() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6268() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6269() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6270() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p6271() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p6272() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6273() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p6274() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p6275() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p6276() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p6277() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p6278() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p6279() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p6280() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p6281() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6282() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6283() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6284() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6285() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6286() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6287() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6288() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6289() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6290() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6291() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6292() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6293() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p6294() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p6295() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6296() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p6297() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p6298() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p6299() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p6300() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p6301() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p6302() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p6303() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p6304() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6305() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6306() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6307() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6308() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6309() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6310() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6311() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6312() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6313() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6314() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6315() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6316() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p6317() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p6318() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6319() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p6320() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p6321() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p6322() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p6323() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p6324() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p6325() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p6326() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p6327() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6328() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6329() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6330() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6331() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6332() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6333() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6334() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6335() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6336() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6337() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6338() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6339() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p6340() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p6341() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6342() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6343() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6344() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6345() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6346() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // accept transposed-product
fn p6347() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product-result
fn p6348() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p6349() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p6350() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p6351() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6352() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6353() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6354() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6355() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6356() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6357() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6358() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6359() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6360() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6361() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6362() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6363() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p6364() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p6365() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6366() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6367() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6368() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6369() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6370() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // accept transposed-product
fn p6371() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product-result
fn p6372() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,4,2>>()); } // accept matrix-dot
fn p6373() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p6374() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // accept matrix-componentwise
fn p6375() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6376() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6377() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6378() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6379() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6380() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6381() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6382() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,2>>(); } // accept matrix-sum
fn p6383() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,4,2>>(); } // accept matrix-sum-assign
fn p6384() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,4,2>>(); } // accept matrix-sum-assign
fn p6385() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,4,2>>(); } // accept matrix-sum-assign
fn p6386() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,4,2>>(); } // accept matrix-sum-assign
fn p6387() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // accept matrix-componentwise
fn p6388() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,4,2>>(); } // accept matrix-equality
fn p6389() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6390() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6391() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6392() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6393() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6394() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // accept transposed-product
fn p6395() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product-result
fn p6396() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p6397() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p6398() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p6399() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6400() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6401() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6402() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6403() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6404() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6405() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6406() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p6407() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p6408() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p6409() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p6410() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p6411() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p6412() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p6413() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6414() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6415() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6416() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6417() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6418() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // accept transposed-product
fn p6419() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,2>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product-result
fn p6420() { let _ = mk::<Matrix<f64,4,2>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p6421() { let _ = mk::<Matrix<f64,4,2>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p6422() { let _ = mk::<Matrix<f64,4,2>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p6423() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6424() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6425() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6426() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6427() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6428() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6429() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6430() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,2>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6431() { let mut m = mk::<Matrix<f64,4,2>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6432() { let mut m = mk::<Matrix<f64,4,2>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6433() { let mut m = mk::<Matrix<f64,4,2>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6434() { let mut m = mk::<Matrix<f64,4,2>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6435() { let _ = mk::<Matrix<f64,4,2>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p6436() { let _ = mk::<Matrix<f64,4,2>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p6437() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,2>>().transpose(); } // reject transpose-result
fn p6438() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6439() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6440() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6441() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6442() { let _: Vector<f64,1> = mk::<Matrix<f64,4,2>>().row(0); } // reject row-result
fn p6443() { let _: Vector<f64,1> = mk::<Matrix<f64,4,2>>().column(0); } // reject column-result
fn p6444() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p6445() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p6446() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p6447() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,2>>(); } // accept matrix-vector
fn p6448() { let _: Vector<f64,1> = mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector-result
fn p6449() { let _: Vector<f64,2> = mk::<Matrix<f64,4,2>>().row(0); } // accept row-result
fn p6450() { let _: Vector<f64,2> = mk::<Matrix<f64,4,2>>().column(0); } // reject column-result
fn p6451() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p6452() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p6453() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p6454() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p6455() { let _: Vector<f64,3> = mk::<Matrix<f64,4,2>>().row(0); } // reject row-result
fn p6456() { let _: Vector<f64,3> = mk::<Matrix<f64,4,2>>().column(0); } // reject column-result
fn p6457() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6458() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6459() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6460() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,2>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6461() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>().row(0); } // reject row-result
fn p6462() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>().column(0); } // accept column-result
fn p6463() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p6464() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p6465() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p6466() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p6467() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p6468() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p6469() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p6470() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p6471() { let mut m = mk::<Matrix<f64,4,2>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p6472() { let _ = Matrix::<f64,4,2>::identity(); } // reject square-only
fn p6473() { let _ = Matrix::<f64,4,2>::from_diagonal_value(1.0); } // reject square-only
fn p6474() { let _ = Matrix::<f64,4,2>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p6475() { let _ = Matrix::<f64,4,2>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p6476() { let _ = Matrix::<f64,4,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p6477() { let _ = Matrix::<f64,4,2>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p6478() { let _ = Matrix::<f64,4,2>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p6479() { let _ = Matrix::<f64,4,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p6480() { let _ = Matrix::<f64,4,2>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p6481() { let _ = Matrix::<f64,4,2>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p6482() { let _ = Matrix::<f64,4,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p6483() { let _ = Matrix::<f64,4,2>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p6484() { let _ = Matrix::<f64,4,2>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p6485() { let _ = Matrix::<f64,4,2>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p6486() { let _: Vector<f64,1> = mk::<Matrix<f64,4,2>>().diagonal(); } // reject diagonal-result
fn p6487() { let _: Vector<f64,2> = mk::<Matrix<f64,4,2>>().diagonal(); } // reject diagonal-result
fn p6488() { let _: Vector<f64,3> = mk::<Matrix<f64,4,2>>().diagonal(); } // reject diagonal-result
fn p6489() { let _: Vector<f64,4> = mk::<Matrix<f64,4,2>>().diagonal(); } // reject diagonal-result
fn p6490() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;1]>()); } // reject flat-array
fn p6491() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p6492() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;2]>()); } // reject flat-array
fn p6493() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p6494() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;3]>()); } // reject flat-array
fn p6495() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p6496() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;4]>()); } // reject flat-array
fn p6497() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p6498() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;5]>()); } // reject flat-array
fn p6499() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p6500() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;6]>()); } // reject flat-array
fn p6501() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p6502() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;7]>()); } // reject flat-array
fn p6503() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p6504() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;8]>()); } // accept flat-array
fn p6505() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;8] = m.as_ref(); } // accept flat-array
fn p6506() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;9]>()); } // reject flat-array
fn p6507() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p6508() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;10]>()); } // reject flat-array
fn p6509() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p6510() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;11]>()); } // reject flat-array
fn p6511() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p6512() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;12]>()); } // reject flat-array
fn p6513() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p6514() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;13]>()); } // reject flat-array
fn p6515() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p6516() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;14]>()); } // reject flat-array
fn p6517() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p6518() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;15]>()); } // reject flat-array
fn p6519() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p6520() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;16]>()); } // reject flat-array
fn p6521() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p6522() { let _ = Matrix::<f64,4,2>::from(mk::<[f64;17]>()); } // reject flat-array
fn p6523() { let m = mk::<Matrix<f64,4,2>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p6524() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6525() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6526() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6527() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6528() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p6529() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p6530() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p6531() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p6532() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6533() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6534() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6535() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6536() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6537() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6538() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6539() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6540() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6541() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6542() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6543() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p6544() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p6545() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p6546() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6547() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6548() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6549() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6550() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p6551() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p6552() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p6553() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p6554() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p6555() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6556() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6557() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6558() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6559() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6560() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6561() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6562() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p6563() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6564() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6565() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6566() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p6567() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p6568() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p6569() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6570() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6571() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6572() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6573() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p6574() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p6575() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p6576() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p6577() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p6578() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6579() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6580() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6581() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6582() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6583() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6584() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6585() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p6586() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6587() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6588() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6589() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p6590() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p6591() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p6592() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6593() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6594() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6595() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6596() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p6597() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p6598() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p6599() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p6600() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p6601() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6602() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6603() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6604() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6605() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6606() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6607() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6608() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p6609() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6610() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6611() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6612() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p6613() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p6614() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p6615() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6616() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p6617() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p6618() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p6619() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p6620() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p6621() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p6622() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p6623() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p6624() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6625() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6626() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6627() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6628() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6629() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6630() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6631() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p6632() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6633() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6634() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6635() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p6636() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p6637() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p6638() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6639() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p6640() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p6641() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p6642() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p6643() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p6644() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p6645() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p6646() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p6647() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6648() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6649() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6650() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6651() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6652() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6653() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6654() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p6655() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6656() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6657() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6658() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p6659() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p6660() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p6661() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6662() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p6663() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p6664() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p6665() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p6666() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p6667() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p6668() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p6669() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p6670() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6671() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6672() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6673() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6674() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6675() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6676() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6677() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p6678() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6679() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6680() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6681() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p6682() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p6683() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p6684() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6685() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p6686() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p6687() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p6688() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p6689() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p6690() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p6691() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p6692() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p6693() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6694() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6695() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6696() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6697() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6698() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6699() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6700() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p6701() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6702() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6703() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6704() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p6705() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p6706() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p6707() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6708() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p6709() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p6710() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p6711() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,1>>(); } // accept matrix-product
fn p6712() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p6713() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p6714() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product-result
fn p6715() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p6716() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p6717() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p6718() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6719() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6720() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6721() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6722() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6723() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6724() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6725() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p6726() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6727() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6728() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6729() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p6730() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p6731() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p6732() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6733() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p6734() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p6735() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p6736() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,2>>(); } // accept matrix-product
fn p6737() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p6738() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p6739() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product-result
fn p6740() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p6741() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p6742() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p6743() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6744() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6745() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6746() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6747() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6748() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6749() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6750() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p6751() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6752() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6753() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6754() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p6755() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p6756() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p6757() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6758() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p6759() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p6760() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p6761() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,3>>(); } // accept matrix-product
fn p6762() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p6763() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p6764() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product-result
fn p6765() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p6766() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p6767() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p6768() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6769() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6770() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6771() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6772() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6773() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6774() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6775() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p6776() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6777() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6778() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6779() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p6780() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p6781() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p6782() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6783() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p6784() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p6785() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p6786() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,3,4>>(); } // accept matrix-product
fn p6787() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p6788() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p6789() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product-result
fn p6790() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p6791() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // accept matrix-dot
fn p6792() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p6793() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6794() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6795() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6796() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6797() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6798() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6799() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6800() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p6801() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6802() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6803() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6804() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p6805() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p6806() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p6807() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,3>>().transpose(); } // accept transpose-result
fn p6808() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6809() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6810() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6811() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,1>>(); } // reject matrix-product
fn p6812() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // accept transposed-product
fn p6813() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product-result
fn p6814() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p6815() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p6816() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p6817() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6818() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6819() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6820() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6821() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6822() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6823() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6824() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p6825() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6826() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6827() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6828() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p6829() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p6830() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p6831() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6832() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6833() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6834() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6835() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,2>>(); } // reject matrix-product
fn p6836() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // accept transposed-product
fn p6837() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product-result
fn p6838() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p6839() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p6840() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p6841() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6842() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6843() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6844() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6845() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6846() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6847() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6848() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p6849() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p6850() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p6851() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p6852() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p6853() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p6854() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p6855() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6856() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6857() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6858() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6859() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,3>>(); } // reject matrix-product
fn p6860() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // accept transposed-product
fn p6861() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product-result
fn p6862() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,4,3>>()); } // accept matrix-dot
fn p6863() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p6864() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // accept matrix-componentwise
fn p6865() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6866() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6867() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6868() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6869() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6870() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6871() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6872() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,3>>(); } // accept matrix-sum
fn p6873() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,4,3>>(); } // accept matrix-sum-assign
fn p6874() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,4,3>>(); } // accept matrix-sum-assign
fn p6875() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,4,3>>(); } // accept matrix-sum-assign
fn p6876() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,4,3>>(); } // accept matrix-sum-assign
fn p6877() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // accept matrix-componentwise
fn p6878() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,4,3>>(); } // accept matrix-equality
fn p6879() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6880() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6881() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6882() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6883() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Matrix<f64,4,4>>(); } // reject matrix-product
fn p6884() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // accept transposed-product
fn p6885() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product-result
fn p6886() { let _ = mk::<Matrix<f64,4,3>>().dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p6887() { let _ = mk::<Matrix<f64,4,3>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // reject matrix-dot
fn p6888() { let _ = mk::<Matrix<f64,4,3>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // reject matrix-componentwise
fn p6889() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6890() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6891() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6892() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() + &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6893() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6894() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6895() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6896() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,3>>() - &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum
fn p6897() { let mut m = mk::<Matrix<f64,4,3>>(); m += mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6898() { let mut m = mk::<Matrix<f64,4,3>>(); m += &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6899() { let mut m = mk::<Matrix<f64,4,3>>(); m -= mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6900() { let mut m = mk::<Matrix<f64,4,3>>(); m -= &mk::<Matrix<f64,4,4>>(); } // reject matrix-sum-assign
fn p6901() { let _ = mk::<Matrix<f64,4,3>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // reject matrix-componentwise
fn p6902() { let _ = mk::<Matrix<f64,4,3>>() == mk::<Matrix<f64,4,4>>(); } // reject matrix-equality
fn p6903() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,3>>().transpose(); } // reject transpose-result
fn p6904() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6905() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6906() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6907() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p6908() { let _: Vector<f64,1> = mk::<Matrix<f64,4,3>>().row(0); } // reject row-result
fn p6909() { let _: Vector<f64,1> = mk::<Matrix<f64,4,3>>().column(0); } // reject column-result
fn p6910() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p6911() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p6912() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p6913() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p6914() { let _: Vector<f64,2> = mk::<Matrix<f64,4,3>>().row(0); } // reject row-result
fn p6915() { let _: Vector<f64,2> = mk::<Matrix<f64,4,3>>().column(0); } // reject column-result
fn p6916() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p6917() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p6918() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p6919() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,3>>(); } // accept matrix-vector
fn p6920() { let _: Vector<f64,1> = mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector-result
fn p6921() { let _: Vector<f64,3> = mk::<Matrix<f64,4,3>>().row(0); } // accept row-result
fn p6922() { let _: Vector<f64,3> = mk::<Matrix<f64,4,3>>().column(0); } // reject column-result
fn p6923() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6924() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6925() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6926() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,3>>() * &mk::<Vector<f64,4>>(); } // reject matrix-vector
fn p6927() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>().row(0); } // reject row-result
fn p6928() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>().column(0); } // accept column-result
fn p6929() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.trace(); m = m.clone(); } // reject square-only
fn p6930() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.transpose_mut(); m = m.clone(); } // reject square-only
fn p6931() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.is_diagonal(); m = m.clone(); } // reject square-only
fn p6932() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.is_symmetric(); m = m.clone(); } // reject square-only
fn p6933() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.determinant(); m = m.clone(); } // reject square-only
fn p6934() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.inverse(); m = m.clone(); } // reject square-only
fn p6935() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.try_inverse(); m = m.clone(); } // reject square-only
fn p6936() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.is_invertible(); m = m.clone(); } // reject square-only
fn p6937() { let mut m = mk::<Matrix<f64,4,3>>(); let _ = m.is_identity(); m = m.clone(); } // reject square-only
fn p6938() { let _ = Matrix::<f64,4,3>::identity(); } // reject square-only
fn p6939() { let _ = Matrix::<f64,4,3>::from_diagonal_value(1.0); } // reject square-only
fn p6940() { let _ = Matrix::<f64,4,3>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p6941() { let _ = Matrix::<f64,4,3>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p6942() { let _ = Matrix::<f64,4,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p6943() { let _ = Matrix::<f64,4,3>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p6944() { let _ = Matrix::<f64,4,3>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p6945() { let _ = Matrix::<f64,4,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p6946() { let _ = Matrix::<f64,4,3>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p6947() { let _ = Matrix::<f64,4,3>::from_affine_translation(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p6948() { let _ = Matrix::<f64,4,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // reject affine-size
fn p6949() { let _ = Matrix::<f64,4,3>::from_diagonal(&mk::<Vector<f64,4>>()); } // reject square-only
fn p6950() { let _ = Matrix::<f64,4,3>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p6951() { let _ = Matrix::<f64,4,3>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p6952() { let _: Vector<f64,1> = mk::<Matrix<f64,4,3>>().diagonal(); } // reject diagonal-result
fn p6953() { let _: Vector<f64,2> = mk::<Matrix<f64,4,3>>().diagonal(); } // reject diagonal-result
fn p6954() { let _: Vector<f64,3> = mk::<Matrix<f64,4,3>>().diagonal(); } // reject diagonal-result
fn p6955() { let _: Vector<f64,4> = mk::<Matrix<f64,4,3>>().diagonal(); } // reject diagonal-result
fn p6956() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;1]>()); } // reject flat-array
fn p6957() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p6958() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;2]>()); } // reject flat-array
fn p6959() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p6960() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;3]>()); } // reject flat-array
fn p6961() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p6962() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;4]>()); } // reject flat-array
fn p6963() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p6964() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;5]>()); } // reject flat-array
fn p6965() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p6966() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;6]>()); } // reject flat-array
fn p6967() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p6968() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;7]>()); } // reject flat-array
fn p6969() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p6970() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;8]>()); } // reject flat-array
fn p6971() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p6972() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;9]>()); } // reject flat-array
fn p6973() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p6974() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;10]>()); } // reject flat-array
fn p6975() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p6976() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;11]>()); } // reject flat-array
fn p6977() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p6978() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;12]>()); } // accept flat-array
fn p6979() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;12] = m.as_ref(); } // accept flat-array
fn p6980() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;13]>()); } // reject flat-array
fn p6981() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p6982() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;14]>()); } // reject flat-array
fn p6983() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p6984() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;15]>()); } // reject flat-array
fn p6985() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p6986() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;16]>()); } // reject flat-array
fn p6987() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;16] = m.as_ref(); } // reject flat-array
fn p6988() { let _ = Matrix::<f64,4,3>::from(mk::<[f64;17]>()); } // reject flat-array
fn p6989() { let m = mk::<Matrix<f64,4,3>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p6990() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6991() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6992() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6993() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,1>>(); } // reject matrix-product
fn p6994() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,1,1>>()); } // reject transposed-product
fn p6995() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p6996() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,1,1>>()); } // reject matrix-dot
fn p6997() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,1,1>>(), 0.5); } // reject matrix-componentwise
fn p6998() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p6999() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p7000() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p7001() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p7002() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p7003() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p7004() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p7005() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum
fn p7006() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p7007() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p7008() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p7009() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,1,1>>(); } // reject matrix-sum-assign
fn p7010() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,1,1>>()); } // reject matrix-componentwise
fn p7011() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,1,1>>(); } // reject matrix-equality
fn p7012() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7013() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p7014() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p7015() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p7016() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,2>>(); } // reject matrix-product
fn p7017() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,1,2>>()); } // reject transposed-product
fn p7018() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p7019() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,1,2>>()); } // reject matrix-dot
fn p7020() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,1,2>>(), 0.5); } // reject matrix-componentwise
fn p7021() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7022() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7023() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7024() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7025() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7026() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7027() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7028() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum
fn p7029() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p7030() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p7031() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p7032() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,1,2>>(); } // reject matrix-sum-assign
fn p7033() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,1,2>>()); } // reject matrix-componentwise
fn p7034() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,1,2>>(); } // reject matrix-equality
fn p7035() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7036() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p7037() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p7038() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p7039() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,3>>(); } // reject matrix-product
fn p7040() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,1,3>>()); } // reject transposed-product
fn p7041() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p7042() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,1,3>>()); } // reject matrix-dot
fn p7043() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,1,3>>(), 0.5); } // reject matrix-componentwise
fn p7044() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7045() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7046() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7047() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7048() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7049() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7050() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7051() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum
fn p7052() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p7053() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p7054() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p7055() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,1,3>>(); } // reject matrix-sum-assign
fn p7056() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,1,3>>()); } // reject matrix-componentwise
fn p7057() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,1,3>>(); } // reject matrix-equality
fn p7058() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7059() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p7060() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p7061() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p7062() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,1,4>>(); } // reject matrix-product
fn p7063() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,1,4>>()); } // reject transposed-product
fn p7064() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p7065() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,1,4>>()); } // reject matrix-dot
fn p7066() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,1,4>>(), 0.5); } // reject matrix-componentwise
fn p7067() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7068() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7069() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7070() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7071() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7072() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7073() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7074() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum
fn p7075() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p7076() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p7077() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p7078() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,1,4>>(); } // reject matrix-sum-assign
fn p7079() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,1,4>>()); } // reject matrix-componentwise
fn p7080() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,1,4>>(); } // reject matrix-equality
fn p7081() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7082() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p7083() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p7084() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p7085() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,1>>(); } // reject matrix-product
fn p7086() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,2,1>>()); } // reject transposed-product
fn p7087() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p7088() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,2,1>>()); } // reject matrix-dot
fn p7089() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,2,1>>(), 0.5); } // reject matrix-componentwise
fn p7090() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7091() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7092() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7093() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7094() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7095() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7096() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7097() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum
fn p7098() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p7099() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p7100() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p7101() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,2,1>>(); } // reject matrix-sum-assign
fn p7102() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,2,1>>()); } // reject matrix-componentwise
fn p7103() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,2,1>>(); } // reject matrix-equality
fn p7104() { let _: Matrix<f64,2,1> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7105() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p7106() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p7107() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p7108() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,2>>(); } // reject matrix-product
fn p7109() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,2,2>>()); } // reject transposed-product
fn p7110() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p7111() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,2,2>>()); } // reject matrix-dot
fn p7112() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,2,2>>(), 0.5); } // reject matrix-componentwise
fn p7113() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7114() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7115() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7116() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7117() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7118() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7119() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7120() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum
fn p7121() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p7122() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p7123() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p7124() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,2,2>>(); } // reject matrix-sum-assign
fn p7125() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,2,2>>()); } // reject matrix-componentwise
fn p7126() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,2,2>>(); } // reject matrix-equality
fn p7127() { let _: Matrix<f64,2,2> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7128() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p7129() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p7130() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p7131() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,3>>(); } // reject matrix-product
fn p7132() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,2,3>>()); } // reject transposed-product
fn p7133() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p7134() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,2,3>>()); } // reject matrix-dot
fn p7135() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,2,3>>(), 0.5); } // reject matrix-componentwise
fn p7136() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7137() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7138() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7139() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7140() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7141() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7142() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7143() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum
fn p7144() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p7145() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p7146() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p7147() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,2,3>>(); } // reject matrix-sum-assign
fn p7148() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,2,3>>()); } // reject matrix-componentwise
fn p7149() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,2,3>>(); } // reject matrix-equality
fn p7150() { let _: Matrix<f64,2,3> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7151() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p7152() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p7153() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p7154() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,2,4>>(); } // reject matrix-product
fn p7155() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,2,4>>()); } // reject transposed-product
fn p7156() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p7157() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,2,4>>()); } // reject matrix-dot
fn p7158() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,2,4>>(), 0.5); } // reject matrix-componentwise
fn p7159() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7160() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7161() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7162() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7163() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7164() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7165() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7166() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum
fn p7167() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p7168() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p7169() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p7170() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,2,4>>(); } // reject matrix-sum-assign
fn p7171() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,2,4>>()); } // reject matrix-componentwise
fn p7172() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,2,4>>(); } // reject matrix-equality
fn p7173() { let _: Matrix<f64,2,4> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7174() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p7175() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p7176() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p7177() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,1>>(); } // reject matrix-product
fn p7178() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,3,1>>()); } // reject transposed-product
fn p7179() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p7180() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,3,1>>()); } // reject matrix-dot
fn p7181() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,3,1>>(), 0.5); } // reject matrix-componentwise
fn p7182() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7183() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7184() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7185() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7186() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7187() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7188() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7189() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum
fn p7190() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p7191() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p7192() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p7193() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,3,1>>(); } // reject matrix-sum-assign
fn p7194() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,3,1>>()); } // reject matrix-componentwise
fn p7195() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,3,1>>(); } // reject matrix-equality
fn p7196() { let _: Matrix<f64,3,1> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7197() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p7198() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p7199() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p7200() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,2>>(); } // reject matrix-product
fn p7201() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,3,2>>()); } // reject transposed-product
fn p7202() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p7203() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,3,2>>()); } // reject matrix-dot
fn p7204() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,3,2>>(), 0.5); } // reject matrix-componentwise
fn p7205() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7206() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7207() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7208() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7209() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7210() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7211() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7212() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum
fn p7213() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p7214() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p7215() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p7216() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,3,2>>(); } // reject matrix-sum-assign
fn p7217() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,3,2>>()); } // reject matrix-componentwise
fn p7218() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,3,2>>(); } // reject matrix-equality
fn p7219() { let _: Matrix<f64,3,2> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7220() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p7221() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p7222() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p7223() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,3>>(); } // reject matrix-product
fn p7224() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,3,3>>()); } // reject transposed-product
fn p7225() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p7226() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,3,3>>()); } // reject matrix-dot
fn p7227() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,3,3>>(), 0.5); } // reject matrix-componentwise
fn p7228() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7229() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7230() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7231() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7232() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7233() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7234() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7235() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum
fn p7236() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p7237() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p7238() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p7239() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,3,3>>(); } // reject matrix-sum-assign
fn p7240() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,3,3>>()); } // reject matrix-componentwise
fn p7241() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,3,3>>(); } // reject matrix-equality
fn p7242() { let _: Matrix<f64,3,3> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7243() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p7244() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p7245() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p7246() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,3,4>>(); } // reject matrix-product
fn p7247() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,3,4>>()); } // reject transposed-product
fn p7248() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p7249() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,3,4>>()); } // reject matrix-dot
fn p7250() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,3,4>>(), 0.5); } // reject matrix-componentwise
fn p7251() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7252() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7253() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7254() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7255() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7256() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7257() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7258() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum
fn p7259() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p7260() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p7261() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p7262() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,3,4>>(); } // reject matrix-sum-assign
fn p7263() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,3,4>>()); } // reject matrix-componentwise
fn p7264() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,3,4>>(); } // reject matrix-equality
fn p7265() { let _: Matrix<f64,3,4> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7266() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p7267() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p7268() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p7269() { let _: Matrix<f64,4,1> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,1>>(); } // accept matrix-product
fn p7270() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // accept transposed-product
fn p7271() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p7272() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,1>>(); } // reject matrix-product-result
fn p7273() { let _: Matrix<f64,1,1> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,1>>()); } // reject transposed-product-result
fn p7274() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p7275() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,4,1>>()); } // reject matrix-dot
fn p7276() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,4,1>>(), 0.5); } // reject matrix-componentwise
fn p7277() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7278() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7279() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7280() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7281() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7282() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7283() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7284() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum
fn p7285() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p7286() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p7287() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p7288() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,4,1>>(); } // reject matrix-sum-assign
fn p7289() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,4,1>>()); } // reject matrix-componentwise
fn p7290() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,4,1>>(); } // reject matrix-equality
fn p7291() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7292() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p7293() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p7294() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p7295() { let _: Matrix<f64,4,2> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,2>>(); } // accept matrix-product
fn p7296() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // accept transposed-product
fn p7297() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p7298() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,2>>(); } // reject matrix-product-result
fn p7299() { let _: Matrix<f64,1,2> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,2>>()); } // reject transposed-product-result
fn p7300() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p7301() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,4,2>>()); } // reject matrix-dot
fn p7302() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,4,2>>(), 0.5); } // reject matrix-componentwise
fn p7303() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7304() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7305() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7306() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7307() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7308() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7309() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7310() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum
fn p7311() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p7312() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p7313() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p7314() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,4,2>>(); } // reject matrix-sum-assign
fn p7315() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,4,2>>()); } // reject matrix-componentwise
fn p7316() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,4,2>>(); } // reject matrix-equality
fn p7317() { let _: Matrix<f64,4,2> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7318() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p7319() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p7320() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p7321() { let _: Matrix<f64,4,3> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,3>>(); } // accept matrix-product
fn p7322() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // accept transposed-product
fn p7323() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p7324() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,3>>(); } // reject matrix-product-result
fn p7325() { let _: Matrix<f64,1,3> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,3>>()); } // reject transposed-product-result
fn p7326() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p7327() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,4,3>>()); } // reject matrix-dot
fn p7328() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,4,3>>(), 0.5); } // reject matrix-componentwise
fn p7329() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7330() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7331() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7332() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7333() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7334() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7335() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7336() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum
fn p7337() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p7338() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p7339() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p7340() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,4,3>>(); } // reject matrix-sum-assign
fn p7341() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,4,3>>()); } // reject matrix-componentwise
fn p7342() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,4,3>>(); } // reject matrix-equality
fn p7343() { let _: Matrix<f64,4,3> = mk::<Matrix<f64,4,4>>().transpose(); } // reject transpose-result
fn p7344() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p7345() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p7346() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p7347() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Matrix<f64,4,4>>(); } // accept matrix-product
fn p7348() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // accept transposed-product
fn p7349() { let _: Matrix<f64,4,1> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p7350() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,4>>() * mk::<Matrix<f64,4,4>>(); } // reject matrix-product-result
fn p7351() { let _: Matrix<f64,1,4> = mk::<Matrix<f64,4,4>>().tr_mul(&mk::<Matrix<f64,4,4>>()); } // reject transposed-product-result
fn p7352() { let _ = mk::<Matrix<f64,4,4>>().dot(&mk::<Matrix<f64,4,4>>()); } // accept matrix-dot
fn p7353() { let _ = mk::<Matrix<f64,4,4>>().tr_dot(&mk::<Matrix<f64,4,4>>()); } // accept matrix-dot
fn p7354() { let _ = mk::<Matrix<f64,4,4>>().lerp(&mk::<Matrix<f64,4,4>>(), 0.5); } // accept matrix-componentwise
fn p7355() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7356() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7357() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7358() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() + &mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7359() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7360() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7361() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7362() { let _: Matrix<f64,4,4> = &mk::<Matrix<f64,4,4>>() - &mk::<Matrix<f64,4,4>>(); } // accept matrix-sum
fn p7363() { let mut m = mk::<Matrix<f64,4,4>>(); m += mk::<Matrix<f64,4,4>>(); } // accept matrix-sum-assign
fn p7364() { let mut m = mk::<Matrix<f64,4,4>>(); m += &mk::<Matrix<f64,4,4>>(); } // accept matrix-sum-assign
fn p7365() { let mut m = mk::<Matrix<f64,4,4>>(); m -= mk::<Matrix<f64,4,4>>(); } // accept matrix-sum-assign
fn p7366() { let mut m = mk::<Matrix<f64,4,4>>(); m -= &mk::<Matrix<f64,4,4>>(); } // accept matrix-sum-assign
fn p7367() { let _ = mk::<Matrix<f64,4,4>>().component_mul(&mk::<Matrix<f64,4,4>>()); } // accept matrix-componentwise
fn p7368() { let _ = mk::<Matrix<f64,4,4>>() == mk::<Matrix<f64,4,4>>(); } // accept matrix-equality
fn p7369() { let _: Matrix<f64,4,4> = mk::<Matrix<f64,4,4>>().transpose(); } // accept transpose-result
fn p7370() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p7371() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p7372() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p7373() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,1>>(); } // reject matrix-vector
fn p7374() { let _: Vector<f64,1> = mk::<Matrix<f64,4,4>>().row(0); } // reject row-result
fn p7375() { let _: Vector<f64,1> = mk::<Matrix<f64,4,4>>().column(0); } // reject column-result
fn p7376() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p7377() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p7378() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p7379() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,2>>(); } // reject matrix-vector
fn p7380() { let _: Vector<f64,2> = mk::<Matrix<f64,4,4>>().row(0); } // reject row-result
fn p7381() { let _: Vector<f64,2> = mk::<Matrix<f64,4,4>>().column(0); } // reject column-result
fn p7382() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p7383() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p7384() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p7385() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,3>>(); } // reject matrix-vector
fn p7386() { let _: Vector<f64,3> = mk::<Matrix<f64,4,4>>().row(0); } // reject row-result
fn p7387() { let _: Vector<f64,3> = mk::<Matrix<f64,4,4>>().column(0); } // reject column-result
fn p7388() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p7389() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p7390() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p7391() { let _: Vector<f64,4> = &mk::<Matrix<f64,4,4>>() * &mk::<Vector<f64,4>>(); } // accept matrix-vector
fn p7392() { let _: Vector<f64,1> = mk::<Matrix<f64,4,4>>() * mk::<Vector<f64,4>>(); } // reject matrix-vector-result
fn p7393() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>().row(0); } // accept row-result
fn p7394() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>().column(0); } // accept column-result
fn p7395() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.trace(); m = m.clone(); } // accept square-only
fn p7396() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.transpose_mut(); m = m.clone(); } // accept square-only
fn p7397() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.is_diagonal(); m = m.clone(); } // accept square-only
fn p7398() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.is_symmetric(); m = m.clone(); } // accept square-only
fn p7399() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.determinant(); m = m.clone(); } // accept square-only
fn p7400() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.inverse(); m = m.clone(); } // accept square-only
fn p7401() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.try_inverse(); m = m.clone(); } // accept square-only
fn p7402() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.is_invertible(); m = m.clone(); } // accept square-only
fn p7403() { let mut m = mk::<Matrix<f64,4,4>>(); let _ = m.is_identity(); m = m.clone(); } // accept square-only
fn p7404() { let _ = Matrix::<f64,4,4>::identity(); } // accept square-only
fn p7405() { let _ = Matrix::<f64,4,4>::from_diagonal_value(1.0); } // accept square-only
fn p7406() { let _ = Matrix::<f64,4,4>::from_diagonal(&mk::<Vector<f64,1>>()); } // reject square-only
fn p7407() { let _ = Matrix::<f64,4,4>::from_affine_translation(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p7408() { let _ = Matrix::<f64,4,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,1>>()); } // reject affine-size
fn p7409() { let _ = Matrix::<f64,4,4>::from_diagonal(&mk::<Vector<f64,2>>()); } // reject square-only
fn p7410() { let _ = Matrix::<f64,4,4>::from_affine_translation(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p7411() { let _ = Matrix::<f64,4,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,2>>()); } // reject affine-size
fn p7412() { let _ = Matrix::<f64,4,4>::from_diagonal(&mk::<Vector<f64,3>>()); } // reject square-only
fn p7413() { let _ = Matrix::<f64,4,4>::from_affine_translation(&mk::<Vector<f64,3>>()); } // accept affine-size
fn p7414() { let _ = Matrix::<f64,4,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,3>>()); } // accept affine-size
fn p7415() { let _ = Matrix::<f64,4,4>::from_diagonal(&mk::<Vector<f64,4>>()); } // accept square-only
fn p7416() { let _ = Matrix::<f64,4,4>::from_affine_translation(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p7417() { let _ = Matrix::<f64,4,4>::from_affine_nonuniform_scale(&mk::<Vector<f64,4>>()); } // reject affine-size
fn p7418() { let _: Vector<f64,1> = mk::<Matrix<f64,4,4>>().diagonal(); } // reject diagonal-result
fn p7419() { let _: Vector<f64,2> = mk::<Matrix<f64,4,4>>().diagonal(); } // reject diagonal-result
fn p7420() { let _: Vector<f64,3> = mk::<Matrix<f64,4,4>>().diagonal(); } // reject diagonal-result
fn p7421() { let _: Vector<f64,4> = mk::<Matrix<f64,4,4>>().diagonal(); } // accept diagonal-result
fn p7422() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;1]>()); } // reject flat-array
fn p7423() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;1] = m.as_ref(); } // reject flat-array
fn p7424() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;2]>()); } // reject flat-array
fn p7425() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;2] = m.as_ref(); } // reject flat-array
fn p7426() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;3]>()); } // reject flat-array
fn p7427() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;3] = m.as_ref(); } // reject flat-array
fn p7428() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;4]>()); } // reject flat-array
fn p7429() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;4] = m.as_ref(); } // reject flat-array
fn p7430() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;5]>()); } // reject flat-array
fn p7431() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;5] = m.as_ref(); } // reject flat-array
fn p7432() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;6]>()); } // reject flat-array
fn p7433() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;6] = m.as_ref(); } // reject flat-array
fn p7434() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;7]>()); } // reject flat-array
fn p7435() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;7] = m.as_ref(); } // reject flat-array
fn p7436() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;8]>()); } // reject flat-array
fn p7437() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;8] = m.as_ref(); } // reject flat-array
fn p7438() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;9]>()); } // reject flat-array
fn p7439() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;9] = m.as_ref(); } // reject flat-array
fn p7440() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;10]>()); } // reject flat-array
fn p7441() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;10] = m.as_ref(); } // reject flat-array
fn p7442() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;11]>()); } // reject flat-array
fn p7443() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;11] = m.as_ref(); } // reject flat-array
fn p7444() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;12]>()); } // reject flat-array
fn p7445() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;12] = m.as_ref(); } // reject flat-array
fn p7446() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;13]>()); } // reject flat-array
fn p7447() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;13] = m.as_ref(); } // reject flat-array
fn p7448() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;14]>()); } // reject flat-array
fn p7449() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;14] = m.as_ref(); } // reject flat-array
fn p7450() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;15]>()); } // reject flat-array
fn p7451() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;15] = m.as_ref(); } // reject flat-array
fn p7452() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;16]>()); } // accept flat-array
fn p7453() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;16] = m.as_ref(); } // accept flat-array
fn p7454() { let _ = Matrix::<f64,4,4>::from(mk::<[f64;17]>()); } // reject flat-array
fn p7455() { let m = mk::<Matrix<f64,4,4>>(); let _: &[f64;17] = m.as_ref(); } // reject flat-array
fn p7456() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7457() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + &mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7458() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7459() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + &mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7460() { let _: Point<f64,1> = mk::<Point<f64,1>>() + mk::<Vector<f64,1>>(); } // accept point-vector
fn p7461() { let _: Point<f64,1> = mk::<Point<f64,1>>() + &mk::<Vector<f64,1>>(); } // accept point-vector
fn p7462() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + mk::<Vector<f64,1>>(); } // accept point-vector
fn p7463() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + &mk::<Vector<f64,1>>(); } // accept point-vector
fn p7464() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7465() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - &mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7466() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7467() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - &mk::<Vector<f64,1>>(); } // accept vector-sum
fn p7468() { let _: Point<f64,1> = mk::<Point<f64,1>>() - mk::<Vector<f64,1>>(); } // accept point-vector
fn p7469() { let _: Point<f64,1> = mk::<Point<f64,1>>() - &mk::<Vector<f64,1>>(); } // accept point-vector
fn p7470() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - mk::<Vector<f64,1>>(); } // accept point-vector
fn p7471() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - &mk::<Vector<f64,1>>(); } // accept point-vector
fn p7472() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - mk::<Point<f64,1>>(); } // accept point-point
fn p7473() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - &mk::<Point<f64,1>>(); } // accept point-point
fn p7474() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - mk::<Point<f64,1>>(); } // accept point-point
fn p7475() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - &mk::<Point<f64,1>>(); } // accept point-point
fn p7476() { let _ = mk::<Vector<f64,1>>().dot(&mk::<Vector<f64,1>>()); } // accept dot
fn p7477() { let _ = mk::<Point<f64,1>>().dot(&mk::<Point<f64,1>>()); } // accept dot
fn p7478() { let _ = mk::<Vector<f64,1>>().lerp(&mk::<Vector<f64,1>>(), 0.5); } // accept dot
fn p7479() { let _ = mk::<Vector<f64,1>>().metric_distance(&mk::<Vector<f64,1>>()); } // accept dot
fn p7480() { let _ = mk::<Vector<f64,1>>() == mk::<Vector<f64,1>>(); } // accept vector-equality
fn p7481() { let _: [f64; 1] = [0.0; 1]; let _ = Vector::<f64,1>::from([0.0f64; 1]); } // accept array-size
fn p7482() { let v = mk::<Vector<f64,1>>(); let _: &[f64; 1] = v.as_ref(); } // accept array-size
fn p7483() { let v = mk::<Point<f64,1>>(); let _: &[f64; 1] = v.as_ref(); } // accept array-size
fn p7484() { let _ = Matrix::<f64,2,2>::from(mk::<Matrix<f64,1,1>>()); } // accept embedding
fn p7485() { let _ = Matrix::<f64,2,2>::from(&mk::<Matrix<f64,1,1>>()); } // accept embedding
fn p7486() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7487() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7488() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7489() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7490() { let _: Point<f64,1> = mk::<Point<f64,1>>() + mk::<Vector<f64,2>>(); } // reject point-vector
fn p7491() { let _: Point<f64,1> = mk::<Point<f64,1>>() + &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7492() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + mk::<Vector<f64,2>>(); } // reject point-vector
fn p7493() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7494() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7495() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7496() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7497() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7498() { let _: Point<f64,1> = mk::<Point<f64,1>>() - mk::<Vector<f64,2>>(); } // reject point-vector
fn p7499() { let _: Point<f64,1> = mk::<Point<f64,1>>() - &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7500() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - mk::<Vector<f64,2>>(); } // reject point-vector
fn p7501() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7502() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - mk::<Point<f64,2>>(); } // reject point-point
fn p7503() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - &mk::<Point<f64,2>>(); } // reject point-point
fn p7504() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - mk::<Point<f64,2>>(); } // reject point-point
fn p7505() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - &mk::<Point<f64,2>>(); } // reject point-point
fn p7506() { let _ = mk::<Vector<f64,1>>().dot(&mk::<Vector<f64,2>>()); } // reject dot
fn p7507() { let _ = mk::<Point<f64,1>>().dot(&mk::<Point<f64,2>>()); } // reject dot
fn p7508() { let _ = mk::<Vector<f64,1>>().lerp(&mk::<Vector<f64,2>>(), 0.5); } // reject dot
fn p7509() { let _ = mk::<Vector<f64,1>>().metric_distance(&mk::<Vector<f64,2>>()); } // reject dot
fn p7510() { let _ = mk::<Vector<f64,1>>() == mk::<Vector<f64,2>>(); } // reject vector-equality
fn p7511() { let _: [f64; 2] = [0.0; 2]; let _ = Vector::<f64,1>::from([0.0f64; 2]); } // reject array-size
fn p7512() { let v = mk::<Vector<f64,1>>(); let _: &[f64; 2] = v.as_ref(); } // reject array-size
fn p7513() { let v = mk::<Point<f64,1>>(); let _: &[f64; 2] = v.as_ref(); } // reject array-size
fn p7514() { let _ = Matrix::<f64,3,3>::from(mk::<Matrix<f64,1,1>>()); } // accept embedding
fn p7515() { let _ = Matrix::<f64,3,3>::from(&mk::<Matrix<f64,1,1>>()); } // accept embedding
fn p7516() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7517() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7518() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7519() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7520() { let _: Point<f64,1> = mk::<Point<f64,1>>() + mk::<Vector<f64,3>>(); } // reject point-vector
fn p7521() { let _: Point<f64,1> = mk::<Point<f64,1>>() + &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7522() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + mk::<Vector<f64,3>>(); } // reject point-vector
fn p7523() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7524() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7525() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7526() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7527() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7528() { let _: Point<f64,1> = mk::<Point<f64,1>>() - mk::<Vector<f64,3>>(); } // reject point-vector
fn p7529() { let _: Point<f64,1> = mk::<Point<f64,1>>() - &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7530() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - mk::<Vector<f64,3>>(); } // reject point-vector
fn p7531() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7532() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - mk::<Point<f64,3>>(); } // reject point-point
fn p7533() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - &mk::<Point<f64,3>>(); } // reject point-point
fn p7534() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - mk::<Point<f64,3>>(); } // reject point-point
fn p7535() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - &mk::<Point<f64,3>>(); } // reject point-point
fn p7536() { let _ = mk::<Vector<f64,1>>().dot(&mk::<Vector<f64,3>>()); } // reject dot
fn p7537() { let _ = mk::<Point<f64,1>>().dot(&mk::<Point<f64,3>>()); } // reject dot
fn p7538() { let _ = mk::<Vector<f64,1>>().lerp(&mk::<Vector<f64,3>>(), 0.5); } // reject dot
fn p7539() { let _ = mk::<Vector<f64,1>>().metric_distance(&mk::<Vector<f64,3>>()); } // reject dot
fn p7540() { let _ = mk::<Vector<f64,1>>() == mk::<Vector<f64,3>>(); } // reject vector-equality
fn p7541() { let _: [f64; 3] = [0.0; 3]; let _ = Vector::<f64,1>::from([0.0f64; 3]); } // reject array-size
fn p7542() { let v = mk::<Vector<f64,1>>(); let _: &[f64; 3] = v.as_ref(); } // reject array-size
fn p7543() { let v = mk::<Point<f64,1>>(); let _: &[f64; 3] = v.as_ref(); } // reject array-size
fn p7544() { let _ = Matrix::<f64,4,4>::from(mk::<Matrix<f64,1,1>>()); } // accept embedding
fn p7545() { let _ = Matrix::<f64,4,4>::from(&mk::<Matrix<f64,1,1>>()); } // accept embedding
fn p7546() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7547() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() + &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7548() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7549() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() + &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7550() { let _: Point<f64,1> = mk::<Point<f64,1>>() + mk::<Vector<f64,4>>(); } // reject point-vector
fn p7551() { let _: Point<f64,1> = mk::<Point<f64,1>>() + &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7552() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + mk::<Vector<f64,4>>(); } // reject point-vector
fn p7553() { let _: Point<f64,1> = &mk::<Point<f64,1>>() + &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7554() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7555() { let _: Vector<f64,1> = mk::<Vector<f64,1>>() - &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7556() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7557() { let _: Vector<f64,1> = &mk::<Vector<f64,1>>() - &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7558() { let _: Point<f64,1> = mk::<Point<f64,1>>() - mk::<Vector<f64,4>>(); } // reject point-vector
fn p7559() { let _: Point<f64,1> = mk::<Point<f64,1>>() - &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7560() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - mk::<Vector<f64,4>>(); } // reject point-vector
fn p7561() { let _: Point<f64,1> = &mk::<Point<f64,1>>() - &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7562() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - mk::<Point<f64,4>>(); } // reject point-point
fn p7563() { let _: Vector<f64,1> = mk::<Point<f64,1>>() - &mk::<Point<f64,4>>(); } // reject point-point
fn p7564() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - mk::<Point<f64,4>>(); } // reject point-point
fn p7565() { let _: Vector<f64,1> = &mk::<Point<f64,1>>() - &mk::<Point<f64,4>>(); } // reject point-point
fn p7566() { let _ = mk::<Vector<f64,1>>().dot(&mk::<Vector<f64,4>>()); } // reject dot
fn p7567() { let _ = mk::<Point<f64,1>>().dot(&mk::<Point<f64,4>>()); } // reject dot
fn p7568() { let _ = mk::<Vector<f64,1>>().lerp(&mk::<Vector<f64,4>>(), 0.5); } // reject dot
fn p7569() { let _ = mk::<Vector<f64,1>>().metric_distance(&mk::<Vector<f64,4>>()); } // reject dot
fn p7570() { let _ = mk::<Vector<f64,1>>() == mk::<Vector<f64,4>>(); } // reject vector-equality
fn p7571() { let _: [f64; 4] = [0.0; 4]; let _ = Vector::<f64,1>::from([0.0f64; 4]); } // reject array-size
fn p7572() { let v = mk::<Vector<f64,1>>(); let _: &[f64; 4] = v.as_ref(); } // reject array-size
fn p7573() { let v = mk::<Point<f64,1>>(); let _: &[f64; 4] = v.as_ref(); } // reject array-size
fn p7574() { let v = mk::<Vector<f64,1>>(); let _ = v.cross(&v); } // reject cross-only-3d
fn p7575() { let _: Vector<f64,1> = mk::<Vector<f64,1>>().extend(1.0); } // reject extend
fn p7576() { let _: Point<f64,1> = mk::<Point<f64,1>>().extend(1.0); } // reject extend
fn p7577() { let _: Vector<f64,1> = mk::<Vector<f64,1>>().to_homogeneous(); } // reject extend
fn p7578() { let _: Vector<f64,1> = mk::<Point<f64,1>>().to_homogeneous(); } // reject extend
fn p7579() { let _: Vector<f64,1> = mk::<Vector<f64,1>>().contract(); } // reject contract
fn p7580() { let _: Point<f64,1> = mk::<Point<f64,1>>().contract(); } // reject contract
fn p7581() { let _: Option<Vector<f64,1>> = mk::<Vector<f64,1>>().from_homogeneous(); } // reject contract
fn p7582() { let _: Option<Point<f64,1>> = Point::<f64,1>::from_homogeneous(&mk::<Vector<f64,1>>()); } // reject contract
fn p7583() { let _: Vector<f64,2> = mk::<Vector<f64,1>>().extend(1.0); } // accept extend
fn p7584() { let _: Point<f64,2> = mk::<Point<f64,1>>().extend(1.0); } // accept extend
fn p7585() { let _: Vector<f64,2> = mk::<Vector<f64,1>>().to_homogeneous(); } // accept extend
fn p7586() { let _: Vector<f64,2> = mk::<Point<f64,1>>().to_homogeneous(); } // accept extend
fn p7587() { let _: Vector<f64,2> = mk::<Vector<f64,1>>().contract(); } // reject contract
fn p7588() { let _: Point<f64,2> = mk::<Point<f64,1>>().contract(); } // reject contract
fn p7589() { let _: Option<Vector<f64,2>> = mk::<Vector<f64,1>>().from_homogeneous(); } // reject contract
fn p7590() { let _: Option<Point<f64,1>> = Point::<f64,1>::from_homogeneous(&mk::<Vector<f64,2>>()); } // accept contract
fn p7591() { let _: Vector<f64,3> = mk::<Vector<f64,1>>().extend(1.0); } // reject extend
fn p7592() { let _: Point<f64,3> = mk::<Point<f64,1>>().extend(1.0); } // reject extend
fn p7593() { let _: Vector<f64,3> = mk::<Vector<f64,1>>().to_homogeneous(); } // reject extend
fn p7594() { let _: Vector<f64,3> = mk::<Point<f64,1>>().to_homogeneous(); } // reject extend
fn p7595() { let _: Vector<f64,3> = mk::<Vector<f64,1>>().contract(); } // reject contract
fn p7596() { let _: Point<f64,3> = mk::<Point<f64,1>>().contract(); } // reject contract
fn p7597() { let _: Option<Vector<f64,3>> = mk::<Vector<f64,1>>().from_homogeneous(); } // reject contract
fn p7598() { let _: Option<Point<f64,1>> = Point::<f64,1>::from_homogeneous(&mk::<Vector<f64,3>>()); } // reject contract
fn p7599() { let _: Vector<f64,4> = mk::<Vector<f64,1>>().extend(1.0); } // reject extend
fn p7600() { let _: Point<f64,4> = mk::<Point<f64,1>>().extend(1.0); } // reject extend
fn p7601() { let _: Vector<f64,4> = mk::<Vector<f64,1>>().to_homogeneous(); } // reject extend
fn p7602() { let _: Vector<f64,4> = mk::<Point<f64,1>>().to_homogeneous(); } // reject extend
fn p7603() { let _: Vector<f64,4> = mk::<Vector<f64,1>>().contract(); } // reject contract
fn p7604() { let _: Point<f64,4> = mk::<Point<f64,1>>().contract(); } // reject contract
fn p7605() { let _: Option<Vector<f64,4>> = mk::<Vector<f64,1>>().from_homogeneous(); } // reject contract
fn p7606() { let _: Option<Point<f64,1>> = Point::<f64,1>::from_homogeneous(&mk::<Vector<f64,4>>()); } // reject contract
fn p7607() { let _: Vector<f64,5> = mk::<Vector<f64,1>>().extend(1.0); } // reject extend
fn p7608() { let _: Point<f64,5> = mk::<Point<f64,1>>().extend(1.0); } // reject extend
fn p7609() { let _: Vector<f64,5> = mk::<Vector<f64,1>>().to_homogeneous(); } // reject extend
fn p7610() { let _: Vector<f64,5> = mk::<Point<f64,1>>().to_homogeneous(); } // reject extend
fn p7611() { let _: Vector<f64,5> = mk::<Vector<f64,1>>().contract(); } // reject contract
fn p7612() { let _: Point<f64,5> = mk::<Point<f64,1>>().contract(); } // reject contract
fn p7613() { let _: Option<Vector<f64,5>> = mk::<Vector<f64,1>>().from_homogeneous(); } // reject contract
fn p7614() { let _: Option<Point<f64,1>> = Point::<f64,1>::from_homogeneous(&mk::<Vector<f64,5>>()); } // reject contract
fn p7615() { let _: Vector<f64,6> = mk::<Vector<f64,1>>().extend(1.0); } // reject extend
fn p7616() { let _: Point<f64,6> = mk::<Point<f64,1>>().extend(1.0); } // reject extend
fn p7617() { let _: Vector<f64,6> = mk::<Vector<f64,1>>().to_homogeneous(); } // reject extend
fn p7618() { let _: Vector<f64,6> = mk::<Point<f64,1>>().to_homogeneous(); } // reject extend
fn p7619() { let _: Vector<f64,6> = mk::<Vector<f64,1>>().contract(); } // reject contract
fn p7620() { let _: Point<f64,6> = mk::<Point<f64,1>>().contract(); } // reject contract
fn p7621() { let _: Option<Vector<f64,6>> = mk::<Vector<f64,1>>().from_homogeneous(); } // reject contract
fn p7622() { let _: Option<Point<f64,1>> = Point::<f64,1>::from_homogeneous(&mk::<Vector<f64,6>>()); } // reject contract
fn p7623() { let _ = Matrix::<f64,1,1>::from(mk::<Matrix<f64,2,2>>()); } // reject embedding
fn p7624() { let _ = Matrix::<f64,1,1>::from(&mk::<Matrix<f64,2,2>>()); } // reject embedding
fn p7625() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7626() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7627() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7628() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7629() { let _: Point<f64,2> = mk::<Point<f64,2>>() + mk::<Vector<f64,1>>(); } // reject point-vector
fn p7630() { let _: Point<f64,2> = mk::<Point<f64,2>>() + &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7631() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + mk::<Vector<f64,1>>(); } // reject point-vector
fn p7632() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7633() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7634() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7635() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7636() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7637() { let _: Point<f64,2> = mk::<Point<f64,2>>() - mk::<Vector<f64,1>>(); } // reject point-vector
fn p7638() { let _: Point<f64,2> = mk::<Point<f64,2>>() - &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7639() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - mk::<Vector<f64,1>>(); } // reject point-vector
fn p7640() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7641() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - mk::<Point<f64,1>>(); } // reject point-point
fn p7642() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - &mk::<Point<f64,1>>(); } // reject point-point
fn p7643() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - mk::<Point<f64,1>>(); } // reject point-point
fn p7644() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - &mk::<Point<f64,1>>(); } // reject point-point
fn p7645() { let _ = mk::<Vector<f64,2>>().dot(&mk::<Vector<f64,1>>()); } // reject dot
fn p7646() { let _ = mk::<Point<f64,2>>().dot(&mk::<Point<f64,1>>()); } // reject dot
fn p7647() { let _ = mk::<Vector<f64,2>>().lerp(&mk::<Vector<f64,1>>(), 0.5); } // reject dot
fn p7648() { let _ = mk::<Vector<f64,2>>().metric_distance(&mk::<Vector<f64,1>>()); } // reject dot
fn p7649() { let _ = mk::<Vector<f64,2>>() == mk::<Vector<f64,1>>(); } // reject vector-equality
fn p7650() { let _: [f64; 1] = [0.0; 1]; let _ = Vector::<f64,2>::from([0.0f64; 1]); } // reject array-size
fn p7651() { let v = mk::<Vector<f64,2>>(); let _: &[f64; 1] = v.as_ref(); } // reject array-size
fn p7652() { let v = mk::<Point<f64,2>>(); let _: &[f64; 1] = v.as_ref(); } // reject array-size
fn p7653() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7654() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + &mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7655() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7656() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + &mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7657() { let _: Point<f64,2> = mk::<Point<f64,2>>() + mk::<Vector<f64,2>>(); } // accept point-vector
fn p7658() { let _: Point<f64,2> = mk::<Point<f64,2>>() + &mk::<Vector<f64,2>>(); } // accept point-vector
fn p7659() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + mk::<Vector<f64,2>>(); } // accept point-vector
fn p7660() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + &mk::<Vector<f64,2>>(); } // accept point-vector
fn p7661() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7662() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - &mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7663() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7664() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - &mk::<Vector<f64,2>>(); } // accept vector-sum
fn p7665() { let _: Point<f64,2> = mk::<Point<f64,2>>() - mk::<Vector<f64,2>>(); } // accept point-vector
fn p7666() { let _: Point<f64,2> = mk::<Point<f64,2>>() - &mk::<Vector<f64,2>>(); } // accept point-vector
fn p7667() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - mk::<Vector<f64,2>>(); } // accept point-vector
fn p7668() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - &mk::<Vector<f64,2>>(); } // accept point-vector
fn p7669() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - mk::<Point<f64,2>>(); } // accept point-point
fn p7670() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - &mk::<Point<f64,2>>(); } // accept point-point
fn p7671() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - mk::<Point<f64,2>>(); } // accept point-point
fn p7672() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - &mk::<Point<f64,2>>(); } // accept point-point
fn p7673() { let _ = mk::<Vector<f64,2>>().dot(&mk::<Vector<f64,2>>()); } // accept dot
fn p7674() { let _ = mk::<Point<f64,2>>().dot(&mk::<Point<f64,2>>()); } // accept dot
fn p7675() { let _ = mk::<Vector<f64,2>>().lerp(&mk::<Vector<f64,2>>(), 0.5); } // accept dot
fn p7676() { let _ = mk::<Vector<f64,2>>().metric_distance(&mk::<Vector<f64,2>>()); } // accept dot
fn p7677() { let _ = mk::<Vector<f64,2>>() == mk::<Vector<f64,2>>(); } // accept vector-equality
fn p7678() { let _: [f64; 2] = [0.0; 2]; let _ = Vector::<f64,2>::from([0.0f64; 2]); } // accept array-size
fn p7679() { let v = mk::<Vector<f64,2>>(); let _: &[f64; 2] = v.as_ref(); } // accept array-size
fn p7680() { let v = mk::<Point<f64,2>>(); let _: &[f64; 2] = v.as_ref(); } // accept array-size
fn p7681() { let _ = Matrix::<f64,3,3>::from(mk::<Matrix<f64,2,2>>()); } // accept embedding
fn p7682() { let _ = Matrix::<f64,3,3>::from(&mk::<Matrix<f64,2,2>>()); } // accept embedding
fn p7683() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7684() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7685() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7686() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7687() { let _: Point<f64,2> = mk::<Point<f64,2>>() + mk::<Vector<f64,3>>(); } // reject point-vector
fn p7688() { let _: Point<f64,2> = mk::<Point<f64,2>>() + &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7689() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + mk::<Vector<f64,3>>(); } // reject point-vector
fn p7690() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7691() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7692() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7693() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7694() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p7695() { let _: Point<f64,2> = mk::<Point<f64,2>>() - mk::<Vector<f64,3>>(); } // reject point-vector
fn p7696() { let _: Point<f64,2> = mk::<Point<f64,2>>() - &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7697() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - mk::<Vector<f64,3>>(); } // reject point-vector
fn p7698() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - &mk::<Vector<f64,3>>(); } // reject point-vector
fn p7699() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - mk::<Point<f64,3>>(); } // reject point-point
fn p7700() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - &mk::<Point<f64,3>>(); } // reject point-point
fn p7701() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - mk::<Point<f64,3>>(); } // reject point-point
fn p7702() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - &mk::<Point<f64,3>>(); } // reject point-point
fn p7703() { let _ = mk::<Vector<f64,2>>().dot(&mk::<Vector<f64,3>>()); } // reject dot
fn p7704() { let _ = mk::<Point<f64,2>>().dot(&mk::<Point<f64,3>>()); } // reject dot
fn p7705() { let _ = mk::<Vector<f64,2>>().lerp(&mk::<Vector<f64,3>>(), 0.5); } // reject dot
fn p7706() { let _ = mk::<Vector<f64,2>>().metric_distance(&mk::<Vector<f64,3>>()); } // reject dot
fn p7707() { let _ = mk::<Vector<f64,2>>() == mk::<Vector<f64,3>>(); } // reject vector-equality
fn p7708() { let _: [f64; 3] = [0.0; 3]; let _ = Vector::<f64,2>::from([0.0f64; 3]); } // reject array-size
fn p7709() { let v = mk::<Vector<f64,2>>(); let _: &[f64; 3] = v.as_ref(); } // reject array-size
fn p7710() { let v = mk::<Point<f64,2>>(); let _: &[f64; 3] = v.as_ref(); } // reject array-size
fn p7711() { let _ = Matrix::<f64,4,4>::from(mk::<Matrix<f64,2,2>>()); } // accept embedding
fn p7712() { let _ = Matrix::<f64,4,4>::from(&mk::<Matrix<f64,2,2>>()); } // accept embedding
fn p7713() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7714() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() + &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7715() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7716() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() + &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7717() { let _: Point<f64,2> = mk::<Point<f64,2>>() + mk::<Vector<f64,4>>(); } // reject point-vector
fn p7718() { let _: Point<f64,2> = mk::<Point<f64,2>>() + &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7719() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + mk::<Vector<f64,4>>(); } // reject point-vector
fn p7720() { let _: Point<f64,2> = &mk::<Point<f64,2>>() + &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7721() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7722() { let _: Vector<f64,2> = mk::<Vector<f64,2>>() - &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7723() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7724() { let _: Vector<f64,2> = &mk::<Vector<f64,2>>() - &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7725() { let _: Point<f64,2> = mk::<Point<f64,2>>() - mk::<Vector<f64,4>>(); } // reject point-vector
fn p7726() { let _: Point<f64,2> = mk::<Point<f64,2>>() - &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7727() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - mk::<Vector<f64,4>>(); } // reject point-vector
fn p7728() { let _: Point<f64,2> = &mk::<Point<f64,2>>() - &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7729() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - mk::<Point<f64,4>>(); } // reject point-point
fn p7730() { let _: Vector<f64,2> = mk::<Point<f64,2>>() - &mk::<Point<f64,4>>(); } // reject point-point
fn p7731() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - mk::<Point<f64,4>>(); } // reject point-point
fn p7732() { let _: Vector<f64,2> = &mk::<Point<f64,2>>() - &mk::<Point<f64,4>>(); } // reject point-point
fn p7733() { let _ = mk::<Vector<f64,2>>().dot(&mk::<Vector<f64,4>>()); } // reject dot
fn p7734() { let _ = mk::<Point<f64,2>>().dot(&mk::<Point<f64,4>>()); } // reject dot
fn p7735() { let _ = mk::<Vector<f64,2>>().lerp(&mk::<Vector<f64,4>>(), 0.5); } // reject dot
fn p7736() { let _ = mk::<Vector<f64,2>>().metric_distance(&mk::<Vector<f64,4>>()); } // reject dot
fn p7737() { let _ = mk::<Vector<f64,2>>() == mk::<Vector<f64,4>>(); } // reject vector-equality
fn p7738() { let _: [f64; 4] = [0.0; 4]; let _ = Vector::<f64,2>::from([0.0f64; 4]); } // reject array-size
fn p7739() { let v = mk::<Vector<f64,2>>(); let _: &[f64; 4] = v.as_ref(); } // reject array-size
fn p7740() { let v = mk::<Point<f64,2>>(); let _: &[f64; 4] = v.as_ref(); } // reject array-size
fn p7741() { let v = mk::<Vector<f64,2>>(); let _ = v.cross(&v); } // reject cross-only-3d
fn p7742() { let _: Vector<f64,1> = mk::<Vector<f64,2>>().extend(1.0); } // reject extend
fn p7743() { let _: Point<f64,1> = mk::<Point<f64,2>>().extend(1.0); } // reject extend
fn p7744() { let _: Vector<f64,1> = mk::<Vector<f64,2>>().to_homogeneous(); } // reject extend
fn p7745() { let _: Vector<f64,1> = mk::<Point<f64,2>>().to_homogeneous(); } // reject extend
fn p7746() { let _: Vector<f64,1> = mk::<Vector<f64,2>>().contract(); } // accept contract
fn p7747() { let _: Point<f64,1> = mk::<Point<f64,2>>().contract(); } // accept contract
fn p7748() { let _: Option<Vector<f64,1>> = mk::<Vector<f64,2>>().from_homogeneous(); } // accept contract
fn p7749() { let _: Option<Point<f64,2>> = Point::<f64,2>::from_homogeneous(&mk::<Vector<f64,1>>()); } // reject contract
fn p7750() { let _: Vector<f64,2> = mk::<Vector<f64,2>>().extend(1.0); } // reject extend
fn p7751() { let _: Point<f64,2> = mk::<Point<f64,2>>().extend(1.0); } // reject extend
fn p7752() { let _: Vector<f64,2> = mk::<Vector<f64,2>>().to_homogeneous(); } // reject extend
fn p7753() { let _: Vector<f64,2> = mk::<Point<f64,2>>().to_homogeneous(); } // reject extend
fn p7754() { let _: Vector<f64,2> = mk::<Vector<f64,2>>().contract(); } // reject contract
fn p7755() { let _: Point<f64,2> = mk::<Point<f64,2>>().contract(); } // reject contract
fn p7756() { let _: Option<Vector<f64,2>> = mk::<Vector<f64,2>>().from_homogeneous(); } // reject contract
fn p7757() { let _: Option<Point<f64,2>> = Point::<f64,2>::from_homogeneous(&mk::<Vector<f64,2>>()); } // reject contract
fn p7758() { let _: Vector<f64,3> = mk::<Vector<f64,2>>().extend(1.0); } // accept extend
fn p7759() { let _: Point<f64,3> = mk::<Point<f64,2>>().extend(1.0); } // accept extend
fn p7760() { let _: Vector<f64,3> = mk::<Vector<f64,2>>().to_homogeneous(); } // accept extend
fn p7761() { let _: Vector<f64,3> = mk::<Point<f64,2>>().to_homogeneous(); } // accept extend
fn p7762() { let _: Vector<f64,3> = mk::<Vector<f64,2>>().contract(); } // reject contract
fn p7763() { let _: Point<f64,3> = mk::<Point<f64,2>>().contract(); } // reject contract
fn p7764() { let _: Option<Vector<f64,3>> = mk::<Vector<f64,2>>().from_homogeneous(); } // reject contract
fn p7765() { let _: Option<Point<f64,2>> = Point::<f64,2>::from_homogeneous(&mk::<Vector<f64,3>>()); } // accept contract
fn p7766() { let _: Vector<f64,4> = mk::<Vector<f64,2>>().extend(1.0); } // reject extend
fn p7767() { let _: Point<f64,4> = mk::<Point<f64,2>>().extend(1.0); } // reject extend
fn p7768() { let _: Vector<f64,4> = mk::<Vector<f64,2>>().to_homogeneous(); } // reject extend
fn p7769() { let _: Vector<f64,4> = mk::<Point<f64,2>>().to_homogeneous(); } // reject extend
fn p7770() { let _: Vector<f64,4> = mk::<Vector<f64,2>>().contract(); } // reject contract
fn p7771() { let _: Point<f64,4> = mk::<Point<f64,2>>().contract(); } // reject contract
fn p7772() { let _: Option<Vector<f64,4>> = mk::<Vector<f64,2>>().from_homogeneous(); } // reject contract
fn p7773() { let _: Option<Point<f64,2>> = Point::<f64,2>::from_homogeneous(&mk::<Vector<f64,4>>()); } // reject contract
fn p7774() { let _: Vector<f64,5> = mk::<Vector<f64,2>>().extend(1.0); } // reject extend
fn p7775() { let _: Point<f64,5> = mk::<Point<f64,2>>().extend(1.0); } // reject extend
fn p7776() { let _: Vector<f64,5> = mk::<Vector<f64,2>>().to_homogeneous(); } // reject extend
fn p7777() { let _: Vector<f64,5> = mk::<Point<f64,2>>().to_homogeneous(); } // reject extend
fn p7778() { let _: Vector<f64,5> = mk::<Vector<f64,2>>().contract(); } // reject contract
fn p7779() { let _: Point<f64,5> = mk::<Point<f64,2>>().contract(); } // reject contract
fn p7780() { let _: Option<Vector<f64,5>> = mk::<Vector<f64,2>>().from_homogeneous(); } // reject contract
fn p7781() { let _: Option<Point<f64,2>> = Point::<f64,2>::from_homogeneous(&mk::<Vector<f64,5>>()); } // reject contract
fn p7782() { let _: Vector<f64,6> = mk::<Vector<f64,2>>().extend(1.0); } // reject extend
fn p7783() { let _: Point<f64,6> = mk::<Point<f64,2>>().extend(1.0); } // reject extend
fn p7784() { let _: Vector<f64,6> = mk::<Vector<f64,2>>().to_homogeneous(); } // reject extend
fn p7785() { let _: Vector<f64,6> = mk::<Point<f64,2>>().to_homogeneous(); } // reject extend
fn p7786() { let _: Vector<f64,6> = mk::<Vector<f64,2>>().contract(); } // reject contract
fn p7787() { let _: Point<f64,6> = mk::<Point<f64,2>>().contract(); } // reject contract
fn p7788() { let _: Option<Vector<f64,6>> = mk::<Vector<f64,2>>().from_homogeneous(); } // reject contract
fn p7789() { let _: Option<Point<f64,2>> = Point::<f64,2>::from_homogeneous(&mk::<Vector<f64,6>>()); } // reject contract
fn p7790() { let _ = Matrix::<f64,1,1>::from(mk::<Matrix<f64,3,3>>()); } // reject embedding
fn p7791() { let _ = Matrix::<f64,1,1>::from(&mk::<Matrix<f64,3,3>>()); } // reject embedding
fn p7792() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7793() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7794() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7795() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7796() { let _: Point<f64,3> = mk::<Point<f64,3>>() + mk::<Vector<f64,1>>(); } // reject point-vector
fn p7797() { let _: Point<f64,3> = mk::<Point<f64,3>>() + &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7798() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + mk::<Vector<f64,1>>(); } // reject point-vector
fn p7799() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7800() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7801() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7802() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7803() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7804() { let _: Point<f64,3> = mk::<Point<f64,3>>() - mk::<Vector<f64,1>>(); } // reject point-vector
fn p7805() { let _: Point<f64,3> = mk::<Point<f64,3>>() - &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7806() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - mk::<Vector<f64,1>>(); } // reject point-vector
fn p7807() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7808() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - mk::<Point<f64,1>>(); } // reject point-point
fn p7809() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - &mk::<Point<f64,1>>(); } // reject point-point
fn p7810() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - mk::<Point<f64,1>>(); } // reject point-point
fn p7811() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - &mk::<Point<f64,1>>(); } // reject point-point
fn p7812() { let _ = mk::<Vector<f64,3>>().dot(&mk::<Vector<f64,1>>()); } // reject dot
fn p7813() { let _ = mk::<Point<f64,3>>().dot(&mk::<Point<f64,1>>()); } // reject dot
fn p7814() { let _ = mk::<Vector<f64,3>>().lerp(&mk::<Vector<f64,1>>(), 0.5); } // reject dot
fn p7815() { let _ = mk::<Vector<f64,3>>().metric_distance(&mk::<Vector<f64,1>>()); } // reject dot
fn p7816() { let _ = mk::<Vector<f64,3>>() == mk::<Vector<f64,1>>(); } // reject vector-equality
fn p7817() { let _: [f64; 1] = [0.0; 1]; let _ = Vector::<f64,3>::from([0.0f64; 1]); } // reject array-size
fn p7818() { let v = mk::<Vector<f64,3>>(); let _: &[f64; 1] = v.as_ref(); } // reject array-size
fn p7819() { let v = mk::<Point<f64,3>>(); let _: &[f64; 1] = v.as_ref(); } // reject array-size
fn p7820() { let _ = Matrix::<f64,2,2>::from(mk::<Matrix<f64,3,3>>()); } // reject embedding
fn p7821() { let _ = Matrix::<f64,2,2>::from(&mk::<Matrix<f64,3,3>>()); } // reject embedding
fn p7822() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7823() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7824() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7825() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7826() { let _: Point<f64,3> = mk::<Point<f64,3>>() + mk::<Vector<f64,2>>(); } // reject point-vector
fn p7827() { let _: Point<f64,3> = mk::<Point<f64,3>>() + &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7828() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + mk::<Vector<f64,2>>(); } // reject point-vector
fn p7829() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7830() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7831() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7832() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7833() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7834() { let _: Point<f64,3> = mk::<Point<f64,3>>() - mk::<Vector<f64,2>>(); } // reject point-vector
fn p7835() { let _: Point<f64,3> = mk::<Point<f64,3>>() - &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7836() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - mk::<Vector<f64,2>>(); } // reject point-vector
fn p7837() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7838() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - mk::<Point<f64,2>>(); } // reject point-point
fn p7839() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - &mk::<Point<f64,2>>(); } // reject point-point
fn p7840() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - mk::<Point<f64,2>>(); } // reject point-point
fn p7841() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - &mk::<Point<f64,2>>(); } // reject point-point
fn p7842() { let _ = mk::<Vector<f64,3>>().dot(&mk::<Vector<f64,2>>()); } // reject dot
fn p7843() { let _ = mk::<Point<f64,3>>().dot(&mk::<Point<f64,2>>()); } // reject dot
fn p7844() { let _ = mk::<Vector<f64,3>>().lerp(&mk::<Vector<f64,2>>(), 0.5); } // reject dot
fn p7845() { let _ = mk::<Vector<f64,3>>().metric_distance(&mk::<Vector<f64,2>>()); } // reject dot
fn p7846() { let _ = mk::<Vector<f64,3>>() == mk::<Vector<f64,2>>(); } // reject vector-equality
fn p7847() { let _: [f64; 2] = [0.0; 2]; let _ = Vector::<f64,3>::from([0.0f64; 2]); } // reject array-size
fn p7848() { let v = mk::<Vector<f64,3>>(); let _: &[f64; 2] = v.as_ref(); } // reject array-size
fn p7849() { let v = mk::<Point<f64,3>>(); let _: &[f64; 2] = v.as_ref(); } // reject array-size
fn p7850() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7851() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + &mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7852() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7853() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + &mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7854() { let _: Point<f64,3> = mk::<Point<f64,3>>() + mk::<Vector<f64,3>>(); } // accept point-vector
fn p7855() { let _: Point<f64,3> = mk::<Point<f64,3>>() + &mk::<Vector<f64,3>>(); } // accept point-vector
fn p7856() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + mk::<Vector<f64,3>>(); } // accept point-vector
fn p7857() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + &mk::<Vector<f64,3>>(); } // accept point-vector
fn p7858() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7859() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - &mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7860() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7861() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - &mk::<Vector<f64,3>>(); } // accept vector-sum
fn p7862() { let _: Point<f64,3> = mk::<Point<f64,3>>() - mk::<Vector<f64,3>>(); } // accept point-vector
fn p7863() { let _: Point<f64,3> = mk::<Point<f64,3>>() - &mk::<Vector<f64,3>>(); } // accept point-vector
fn p7864() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - mk::<Vector<f64,3>>(); } // accept point-vector
fn p7865() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - &mk::<Vector<f64,3>>(); } // accept point-vector
fn p7866() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - mk::<Point<f64,3>>(); } // accept point-point
fn p7867() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - &mk::<Point<f64,3>>(); } // accept point-point
fn p7868() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - mk::<Point<f64,3>>(); } // accept point-point
fn p7869() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - &mk::<Point<f64,3>>(); } // accept point-point
fn p7870() { let _ = mk::<Vector<f64,3>>().dot(&mk::<Vector<f64,3>>()); } // accept dot
fn p7871() { let _ = mk::<Point<f64,3>>().dot(&mk::<Point<f64,3>>()); } // accept dot
fn p7872() { let _ = mk::<Vector<f64,3>>().lerp(&mk::<Vector<f64,3>>(), 0.5); } // accept dot
fn p7873() { let _ = mk::<Vector<f64,3>>().metric_distance(&mk::<Vector<f64,3>>()); } // accept dot
fn p7874() { let _ = mk::<Vector<f64,3>>() == mk::<Vector<f64,3>>(); } // accept vector-equality
fn p7875() { let _: [f64; 3] = [0.0; 3]; let _ = Vector::<f64,3>::from([0.0f64; 3]); } // accept array-size
fn p7876() { let v = mk::<Vector<f64,3>>(); let _: &[f64; 3] = v.as_ref(); } // accept array-size
fn p7877() { let v = mk::<Point<f64,3>>(); let _: &[f64; 3] = v.as_ref(); } // accept array-size
fn p7878() { let _ = Matrix::<f64,4,4>::from(mk::<Matrix<f64,3,3>>()); } // accept embedding
fn p7879() { let _ = Matrix::<f64,4,4>::from(&mk::<Matrix<f64,3,3>>()); } // accept embedding
fn p7880() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7881() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() + &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7882() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7883() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() + &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7884() { let _: Point<f64,3> = mk::<Point<f64,3>>() + mk::<Vector<f64,4>>(); } // reject point-vector
fn p7885() { let _: Point<f64,3> = mk::<Point<f64,3>>() + &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7886() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + mk::<Vector<f64,4>>(); } // reject point-vector
fn p7887() { let _: Point<f64,3> = &mk::<Point<f64,3>>() + &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7888() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7889() { let _: Vector<f64,3> = mk::<Vector<f64,3>>() - &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7890() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7891() { let _: Vector<f64,3> = &mk::<Vector<f64,3>>() - &mk::<Vector<f64,4>>(); } // reject vector-sum
fn p7892() { let _: Point<f64,3> = mk::<Point<f64,3>>() - mk::<Vector<f64,4>>(); } // reject point-vector
fn p7893() { let _: Point<f64,3> = mk::<Point<f64,3>>() - &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7894() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - mk::<Vector<f64,4>>(); } // reject point-vector
fn p7895() { let _: Point<f64,3> = &mk::<Point<f64,3>>() - &mk::<Vector<f64,4>>(); } // reject point-vector
fn p7896() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - mk::<Point<f64,4>>(); } // reject point-point
fn p7897() { let _: Vector<f64,3> = mk::<Point<f64,3>>() - &mk::<Point<f64,4>>(); } // reject point-point
fn p7898() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - mk::<Point<f64,4>>(); } // reject point-point
fn p7899() { let _: Vector<f64,3> = &mk::<Point<f64,3>>() - &mk::<Point<f64,4>>(); } // reject point-point
fn p7900() { let _ = mk::<Vector<f64,3>>().dot(&mk::<Vector<f64,4>>()); } // reject dot
fn p7901() { let _ = mk::<Point<f64,3>>().dot(&mk::<Point<f64,4>>()); } // reject dot
fn p7902() { let _ = mk::<Vector<f64,3>>().lerp(&mk::<Vector<f64,4>>(), 0.5); } // reject dot
fn p7903() { let _ = mk::<Vector<f64,3>>().metric_distance(&mk::<Vector<f64,4>>()); } // reject dot
fn p7904() { let _ = mk::<Vector<f64,3>>() == mk::<Vector<f64,4>>(); } // reject vector-equality
fn p7905() { let _: [f64; 4] = [0.0; 4]; let _ = Vector::<f64,3>::from([0.0f64; 4]); } // reject array-size
fn p7906() { let v = mk::<Vector<f64,3>>(); let _: &[f64; 4] = v.as_ref(); } // reject array-size
fn p7907() { let v = mk::<Point<f64,3>>(); let _: &[f64; 4] = v.as_ref(); } // reject array-size
fn p7908() { let v = mk::<Vector<f64,3>>(); let _ = v.cross(&v); } // accept cross-only-3d
fn p7909() { let _: Vector<f64,1> = mk::<Vector<f64,3>>().extend(1.0); } // reject extend
fn p7910() { let _: Point<f64,1> = mk::<Point<f64,3>>().extend(1.0); } // reject extend
fn p7911() { let _: Vector<f64,1> = mk::<Vector<f64,3>>().to_homogeneous(); } // reject extend
fn p7912() { let _: Vector<f64,1> = mk::<Point<f64,3>>().to_homogeneous(); } // reject extend
fn p7913() { let _: Vector<f64,1> = mk::<Vector<f64,3>>().contract(); } // reject contract
fn p7914() { let _: Point<f64,1> = mk::<Point<f64,3>>().contract(); } // reject contract
fn p7915() { let _: Option<Vector<f64,1>> = mk::<Vector<f64,3>>().from_homogeneous(); } // reject contract
fn p7916() { let _: Option<Point<f64,3>> = Point::<f64,3>::from_homogeneous(&mk::<Vector<f64,1>>()); } // reject contract
fn p7917() { let _: Vector<f64,2> = mk::<Vector<f64,3>>().extend(1.0); } // reject extend
fn p7918() { let _: Point<f64,2> = mk::<Point<f64,3>>().extend(1.0); } // reject extend
fn p7919() { let _: Vector<f64,2> = mk::<Vector<f64,3>>().to_homogeneous(); } // reject extend
fn p7920() { let _: Vector<f64,2> = mk::<Point<f64,3>>().to_homogeneous(); } // reject extend
fn p7921() { let _: Vector<f64,2> = mk::<Vector<f64,3>>().contract(); } // accept contract
fn p7922() { let _: Point<f64,2> = mk::<Point<f64,3>>().contract(); } // accept contract
fn p7923() { let _: Option<Vector<f64,2>> = mk::<Vector<f64,3>>().from_homogeneous(); } // accept contract
fn p7924() { let _: Option<Point<f64,3>> = Point::<f64,3>::from_homogeneous(&mk::<Vector<f64,2>>()); } // reject contract
fn p7925() { let _: Vector<f64,3> = mk::<Vector<f64,3>>().extend(1.0); } // reject extend
fn p7926() { let _: Point<f64,3> = mk::<Point<f64,3>>().extend(1.0); } // reject extend
fn p7927() { let _: Vector<f64,3> = mk::<Vector<f64,3>>().to_homogeneous(); } // reject extend
fn p7928() { let _: Vector<f64,3> = mk::<Point<f64,3>>().to_homogeneous(); } // reject extend
fn p7929() { let _: Vector<f64,3> = mk::<Vector<f64,3>>().contract(); } // reject contract
fn p7930() { let _: Point<f64,3> = mk::<Point<f64,3>>().contract(); } // reject contract
fn p7931() { let _: Option<Vector<f64,3>> = mk::<Vector<f64,3>>().from_homogeneous(); } // reject contract
fn p7932() { let _: Option<Point<f64,3>> = Point::<f64,3>::from_homogeneous(&mk::<Vector<f64,3>>()); } // reject contract
fn p7933() { let _: Vector<f64,4> = mk::<Vector<f64,3>>().extend(1.0); } // accept extend
fn p7934() { let _: Point<f64,4> = mk::<Point<f64,3>>().extend(1.0); } // accept extend
fn p7935() { let _: Vector<f64,4> = mk::<Vector<f64,3>>().to_homogeneous(); } // accept extend
fn p7936() { let _: Vector<f64,4> = mk::<Point<f64,3>>().to_homogeneous(); } // accept extend
fn p7937() { let _: Vector<f64,4> = mk::<Vector<f64,3>>().contract(); } // reject contract
fn p7938() { let _: Point<f64,4> = mk::<Point<f64,3>>().contract(); } // reject contract
fn p7939() { let _: Option<Vector<f64,4>> = mk::<Vector<f64,3>>().from_homogeneous(); } // reject contract
fn p7940() { let _: Option<Point<f64,3>> = Point::<f64,3>::from_homogeneous(&mk::<Vector<f64,4>>()); } // accept contract
fn p7941() { let _: Vector<f64,5> = mk::<Vector<f64,3>>().extend(1.0); } // reject extend
fn p7942() { let _: Point<f64,5> = mk::<Point<f64,3>>().extend(1.0); } // reject extend
fn p7943() { let _: Vector<f64,5> = mk::<Vector<f64,3>>().to_homogeneous(); } // reject extend
fn p7944() { let _: Vector<f64,5> = mk::<Point<f64,3>>().to_homogeneous(); } // reject extend
fn p7945() { let _: Vector<f64,5> = mk::<Vector<f64,3>>().contract(); } // reject contract
fn p7946() { let _: Point<f64,5> = mk::<Point<f64,3>>().contract(); } // reject contract
fn p7947() { let _: Option<Vector<f64,5>> = mk::<Vector<f64,3>>().from_homogeneous(); } // reject contract
fn p7948() { let _: Option<Point<f64,3>> = Point::<f64,3>::from_homogeneous(&mk::<Vector<f64,5>>()); } // reject contract
fn p7949() { let _: Vector<f64,6> = mk::<Vector<f64,3>>().extend(1.0); } // reject extend
fn p7950() { let _: Point<f64,6> = mk::<Point<f64,3>>().extend(1.0); } // reject extend
fn p7951() { let _: Vector<f64,6> = mk::<Vector<f64,3>>().to_homogeneous(); } // reject extend
fn p7952() { let _: Vector<f64,6> = mk::<Point<f64,3>>().to_homogeneous(); } // reject extend
fn p7953() { let _: Vector<f64,6> = mk::<Vector<f64,3>>().contract(); } // reject contract
fn p7954() { let _: Point<f64,6> = mk::<Point<f64,3>>().contract(); } // reject contract
fn p7955() { let _: Option<Vector<f64,6>> = mk::<Vector<f64,3>>().from_homogeneous(); } // reject contract
fn p7956() { let _: Option<Point<f64,3>> = Point::<f64,3>::from_homogeneous(&mk::<Vector<f64,6>>()); } // reject contract
fn p7957() { let _ = Matrix::<f64,1,1>::from(mk::<Matrix<f64,4,4>>()); } // reject embedding
fn p7958() { let _ = Matrix::<f64,1,1>::from(&mk::<Matrix<f64,4,4>>()); } // reject embedding
fn p7959() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7960() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7961() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7962() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7963() { let _: Point<f64,4> = mk::<Point<f64,4>>() + mk::<Vector<f64,1>>(); } // reject point-vector
fn p7964() { let _: Point<f64,4> = mk::<Point<f64,4>>() + &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7965() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + mk::<Vector<f64,1>>(); } // reject point-vector
fn p7966() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7967() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7968() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7969() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7970() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - &mk::<Vector<f64,1>>(); } // reject vector-sum
fn p7971() { let _: Point<f64,4> = mk::<Point<f64,4>>() - mk::<Vector<f64,1>>(); } // reject point-vector
fn p7972() { let _: Point<f64,4> = mk::<Point<f64,4>>() - &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7973() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - mk::<Vector<f64,1>>(); } // reject point-vector
fn p7974() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - &mk::<Vector<f64,1>>(); } // reject point-vector
fn p7975() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - mk::<Point<f64,1>>(); } // reject point-point
fn p7976() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - &mk::<Point<f64,1>>(); } // reject point-point
fn p7977() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - mk::<Point<f64,1>>(); } // reject point-point
fn p7978() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - &mk::<Point<f64,1>>(); } // reject point-point
fn p7979() { let _ = mk::<Vector<f64,4>>().dot(&mk::<Vector<f64,1>>()); } // reject dot
fn p7980() { let _ = mk::<Point<f64,4>>().dot(&mk::<Point<f64,1>>()); } // reject dot
fn p7981() { let _ = mk::<Vector<f64,4>>().lerp(&mk::<Vector<f64,1>>(), 0.5); } // reject dot
fn p7982() { let _ = mk::<Vector<f64,4>>().metric_distance(&mk::<Vector<f64,1>>()); } // reject dot
fn p7983() { let _ = mk::<Vector<f64,4>>() == mk::<Vector<f64,1>>(); } // reject vector-equality
fn p7984() { let _: [f64; 1] = [0.0; 1]; let _ = Vector::<f64,4>::from([0.0f64; 1]); } // reject array-size
fn p7985() { let v = mk::<Vector<f64,4>>(); let _: &[f64; 1] = v.as_ref(); } // reject array-size
fn p7986() { let v = mk::<Point<f64,4>>(); let _: &[f64; 1] = v.as_ref(); } // reject array-size
fn p7987() { let _ = Matrix::<f64,2,2>::from(mk::<Matrix<f64,4,4>>()); } // reject embedding
fn p7988() { let _ = Matrix::<f64,2,2>::from(&mk::<Matrix<f64,4,4>>()); } // reject embedding
fn p7989() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7990() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7991() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7992() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7993() { let _: Point<f64,4> = mk::<Point<f64,4>>() + mk::<Vector<f64,2>>(); } // reject point-vector
fn p7994() { let _: Point<f64,4> = mk::<Point<f64,4>>() + &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7995() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + mk::<Vector<f64,2>>(); } // reject point-vector
fn p7996() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + &mk::<Vector<f64,2>>(); } // reject point-vector
fn p7997() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7998() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p7999() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - mk::<Vector<f64,2>>(); } // reject vector-sum
fn p8000() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - &mk::<Vector<f64,2>>(); } // reject vector-sum
fn p8001() { let _: Point<f64,4> = mk::<Point<f64,4>>() - mk::<Vector<f64,2>>(); } // reject point-vector
fn p8002() { let _: Point<f64,4> = mk::<Point<f64,4>>() - &mk::<Vector<f64,2>>(); } // reject point-vector
fn p8003() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - mk::<Vector<f64,2>>(); } // reject point-vector
fn p8004() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - &mk::<Vector<f64,2>>(); } // reject point-vector
fn p8005() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - mk::<Point<f64,2>>(); } // reject point-point
fn p8006() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - &mk::<Point<f64,2>>(); } // reject point-point
fn p8007() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - mk::<Point<f64,2>>(); } // reject point-point
fn p8008() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - &mk::<Point<f64,2>>(); } // reject point-point
fn p8009() { let _ = mk::<Vector<f64,4>>().dot(&mk::<Vector<f64,2>>()); } // reject dot
fn p8010() { let _ = mk::<Point<f64,4>>().dot(&mk::<Point<f64,2>>()); } // reject dot
fn p8011() { let _ = mk::<Vector<f64,4>>().lerp(&mk::<Vector<f64,2>>(), 0.5); } // reject dot
fn p8012() { let _ = mk::<Vector<f64,4>>().metric_distance(&mk::<Vector<f64,2>>()); } // reject dot
fn p8013() { let _ = mk::<Vector<f64,4>>() == mk::<Vector<f64,2>>(); } // reject vector-equality
fn p8014() { let _: [f64; 2] = [0.0; 2]; let _ = Vector::<f64,4>::from([0.0f64; 2]); } // reject array-size
fn p8015() { let v = mk::<Vector<f64,4>>(); let _: &[f64; 2] = v.as_ref(); } // reject array-size
fn p8016() { let v = mk::<Point<f64,4>>(); let _: &[f64; 2] = v.as_ref(); } // reject array-size
fn p8017() { let _ = Matrix::<f64,3,3>::from(mk::<Matrix<f64,4,4>>()); } // reject embedding
fn p8018() { let _ = Matrix::<f64,3,3>::from(&mk::<Matrix<f64,4,4>>()); } // reject embedding
fn p8019() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8020() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8021() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8022() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8023() { let _: Point<f64,4> = mk::<Point<f64,4>>() + mk::<Vector<f64,3>>(); } // reject point-vector
fn p8024() { let _: Point<f64,4> = mk::<Point<f64,4>>() + &mk::<Vector<f64,3>>(); } // reject point-vector
fn p8025() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + mk::<Vector<f64,3>>(); } // reject point-vector
fn p8026() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + &mk::<Vector<f64,3>>(); } // reject point-vector
fn p8027() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8028() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8029() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8030() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - &mk::<Vector<f64,3>>(); } // reject vector-sum
fn p8031() { let _: Point<f64,4> = mk::<Point<f64,4>>() - mk::<Vector<f64,3>>(); } // reject point-vector
fn p8032() { let _: Point<f64,4> = mk::<Point<f64,4>>() - &mk::<Vector<f64,3>>(); } // reject point-vector
fn p8033() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - mk::<Vector<f64,3>>(); } // reject point-vector
fn p8034() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - &mk::<Vector<f64,3>>(); } // reject point-vector
fn p8035() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - mk::<Point<f64,3>>(); } // reject point-point
fn p8036() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - &mk::<Point<f64,3>>(); } // reject point-point
fn p8037() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - mk::<Point<f64,3>>(); } // reject point-point
fn p8038() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - &mk::<Point<f64,3>>(); } // reject point-point
fn p8039() { let _ = mk::<Vector<f64,4>>().dot(&mk::<Vector<f64,3>>()); } // reject dot
fn p8040() { let _ = mk::<Point<f64,4>>().dot(&mk::<Point<f64,3>>()); } // reject dot
fn p8041() { let _ = mk::<Vector<f64,4>>().lerp(&mk::<Vector<f64,3>>(), 0.5); } // reject dot
fn p8042() { let _ = mk::<Vector<f64,4>>().metric_distance(&mk::<Vector<f64,3>>()); } // reject dot
fn p8043() { let _ = mk::<Vector<f64,4>>() == mk::<Vector<f64,3>>(); } // reject vector-equality
fn p8044() { let _: [f64; 3] = [0.0; 3]; let _ = Vector::<f64,4>::from([0.0f64; 3]); } // reject array-size
fn p8045() { let v = mk::<Vector<f64,4>>(); let _: &[f64; 3] = v.as_ref(); } // reject array-size
fn p8046() { let v = mk::<Point<f64,4>>(); let _: &[f64; 3] = v.as_ref(); } // reject array-size
fn p8047() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8048() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() + &mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8049() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8050() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() + &mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8051() { let _: Point<f64,4> = mk::<Point<f64,4>>() + mk::<Vector<f64,4>>(); } // accept point-vector
fn p8052() { let _: Point<f64,4> = mk::<Point<f64,4>>() + &mk::<Vector<f64,4>>(); } // accept point-vector
fn p8053() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + mk::<Vector<f64,4>>(); } // accept point-vector
fn p8054() { let _: Point<f64,4> = &mk::<Point<f64,4>>() + &mk::<Vector<f64,4>>(); } // accept point-vector
fn p8055() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8056() { let _: Vector<f64,4> = mk::<Vector<f64,4>>() - &mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8057() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8058() { let _: Vector<f64,4> = &mk::<Vector<f64,4>>() - &mk::<Vector<f64,4>>(); } // accept vector-sum
fn p8059() { let _: Point<f64,4> = mk::<Point<f64,4>>() - mk::<Vector<f64,4>>(); } // accept point-vector
fn p8060() { let _: Point<f64,4> = mk::<Point<f64,4>>() - &mk::<Vector<f64,4>>(); } // accept point-vector
fn p8061() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - mk::<Vector<f64,4>>(); } // accept point-vector
fn p8062() { let _: Point<f64,4> = &mk::<Point<f64,4>>() - &mk::<Vector<f64,4>>(); } // accept point-vector
fn p8063() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - mk::<Point<f64,4>>(); } // accept point-point
fn p8064() { let _: Vector<f64,4> = mk::<Point<f64,4>>() - &mk::<Point<f64,4>>(); } // accept point-point
fn p8065() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - mk::<Point<f64,4>>(); } // accept point-point
fn p8066() { let _: Vector<f64,4> = &mk::<Point<f64,4>>() - &mk::<Point<f64,4>>(); } // accept point-point
fn p8067() { let _ = mk::<Vector<f64,4>>().dot(&mk::<Vector<f64,4>>()); } // accept dot
fn p8068() { let _ = mk::<Point<f64,4>>().dot(&mk::<Point<f64,4>>()); } // accept dot
fn p8069() { let _ = mk::<Vector<f64,4>>().lerp(&mk::<Vector<f64,4>>(), 0.5); } // accept dot
fn p8070() { let _ = mk::<Vector<f64,4>>().metric_distance(&mk::<Vector<f64,4>>()); } // accept dot
fn p8071() { let _ = mk::<Vector<f64,4>>() == mk::<Vector<f64,4>>(); } // accept vector-equality
fn p8072() { let _: [f64; 4] = [0.0; 4]; let _ = Vector::<f64,4>::from([0.0f64; 4]); } // accept array-size
fn p8073() { let v = mk::<Vector<f64,4>>(); let _: &[f64; 4] = v.as_ref(); } // accept array-size
fn p8074() { let v = mk::<Point<f64,4>>(); let _: &[f64; 4] = v.as_ref(); } // accept array-size
fn p8075() { let v = mk::<Vector<f64,4>>(); let _ = v.cross(&v); } // reject cross-only-3d
fn p8076() { let _: Vector<f64,1> = mk::<Vector<f64,4>>().extend(1.0); } // reject extend
fn p8077() { let _: Point<f64,1> = mk::<Point<f64,4>>().extend(1.0); } // reject extend
fn p8078() { let _: Vector<f64,1> = mk::<Vector<f64,4>>().to_homogeneous(); } // reject extend
fn p8079() { let _: Vector<f64,1> = mk::<Point<f64,4>>().to_homogeneous(); } // reject extend
fn p8080() { let _: Vector<f64,1> = mk::<Vector<f64,4>>().contract(); } // reject contract
fn p8081() { let _: Point<f64,1> = mk::<Point<f64,4>>().contract(); } // reject contract
fn p8082() { let _: Option<Vector<f64,1>> = mk::<Vector<f64,4>>().from_homogeneous(); } // reject contract
fn p8083() { let _: Vector<f64,2> = mk::<Vector<f64,4>>().extend(1.0); } // reject extend
fn p8084() { let _: Point<f64,2> = mk::<Point<f64,4>>().extend(1.0); } // reject extend
fn p8085() { let _: Vector<f64,2> = mk::<Vector<f64,4>>().to_homogeneous(); } // reject extend
fn p8086() { let _: Vector<f64,2> = mk::<Point<f64,4>>().to_homogeneous(); } // reject extend
fn p8087() { let _: Vector<f64,2> = mk::<Vector<f64,4>>().contract(); } // reject contract
fn p8088() { let _: Point<f64,2> = mk::<Point<f64,4>>().contract(); } // reject contract
fn p8089() { let _: Option<Vector<f64,2>> = mk::<Vector<f64,4>>().from_homogeneous(); } // reject contract
fn p8090() { let _: Vector<f64,3> = mk::<Vector<f64,4>>().extend(1.0); } // reject extend
fn p8091() { let _: Point<f64,3> = mk::<Point<f64,4>>().extend(1.0); } // reject extend
fn p8092() { let _: Vector<f64,3> = mk::<Vector<f64,4>>().to_homogeneous(); } // reject extend
fn p8093() { let _: Vector<f64,3> = mk::<Point<f64,4>>().to_homogeneous(); } // reject extend
fn p8094() { let _: Vector<f64,3> = mk::<Vector<f64,4>>().contract(); } // accept contract
fn p8095() { let _: Point<f64,3> = mk::<Point<f64,4>>().contract(); } // accept contract
fn p8096() { let _: Option<Vector<f64,3>> = mk::<Vector<f64,4>>().from_homogeneous(); } // accept contract
fn p8097() { let _: Vector<f64,4> = mk::<Vector<f64,4>>().extend(1.0); } // reject extend
fn p8098() { let _: Point<f64,4> = mk::<Point<f64,4>>().extend(1.0); } // reject extend
fn p8099() { let _: Vector<f64,4> = mk::<Vector<f64,4>>().to_homogeneous(); } // reject extend
fn p8100() { let _: Vector<f64,4> = mk::<Point<f64,4>>().to_homogeneous(); } // reject extend
fn p8101() { let _: Vector<f64,4> = mk::<Vector<f64,4>>().contract(); } // reject contract
fn p8102() { let _: Point<f64,4> = mk::<Point<f64,4>>().contract(); } // reject contract
fn p8103() { let _: Option<Vector<f64,4>> = mk::<Vector<f64,4>>().from_homogeneous(); } // reject contract
fn p8104() { let _: Vector<f64,6> = mk::<Vector<f64,4>>().extend(1.0); } // reject extend
fn p8105() { let _: Point<f64,6> = mk::<Point<f64,4>>().extend(1.0); } // reject extend
fn p8106() { let _: Vector<f64,6> = mk::<Vector<f64,4>>().to_homogeneous(); } // reject extend
fn p8107() { let _: Vector<f64,6> = mk::<Point<f64,4>>().to_homogeneous(); } // reject extend
fn p8108() { let _: Vector<f64,6> = mk::<Vector<f64,4>>().contract(); } // reject contract
fn p8109() { let _: Point<f64,6> = mk::<Point<f64,4>>().contract(); } // reject contract
fn p8110() { let _: Option<Vector<f64,6>> = mk::<Vector<f64,4>>().from_homogeneous(); } // reject contract
fn p8111() { let _: Translation<f64,2> = mk::<Translation<f64,2>>() * mk::<Translation<f64,2>>(); } // accept transform-product
fn p8112() { let _: Translation<f64,2> = mk::<Translation<f64,2>>() * &mk::<Translation<f64,2>>(); } // accept transform-product
fn p8113() { let _: Translation<f64,2> = &mk::<Translation<f64,2>>() * mk::<Translation<f64,2>>(); } // accept transform-product
fn p8114() { let _: Translation<f64,2> = &mk::<Translation<f64,2>>() * &mk::<Translation<f64,2>>(); } // accept transform-product
fn p8115() { let _: Point<f64,2> = mk::<Translation<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8116() { let _: Point<f64,2> = mk::<Translation<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8117() { let _: Point<f64,2> = &mk::<Translation<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8118() { let _: Point<f64,2> = &mk::<Translation<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8119() { let _: Vector<f64,2> = mk::<Translation<f64,2>>().apply_vector(&mk::<Vector<f64,2>>()); } // accept transform-vector
fn p8120() { let _: Point<f64,2> = mk::<Translation<f64,2>>().apply_point(&mk::<Point<f64,2>>()); } // accept transform-point
fn p8121() { let _: Matrix<f64,3,3> = mk::<Translation<f64,2>>().to_affine_matrix(); } // accept transform-matrix
fn p8122() { let _: Rotation<f64,2> = mk::<Rotation<f64,2>>() * mk::<Rotation<f64,2>>(); } // accept transform-product
fn p8123() { let _: Rotation<f64,2> = mk::<Rotation<f64,2>>() * &mk::<Rotation<f64,2>>(); } // accept transform-product
fn p8124() { let _: Rotation<f64,2> = &mk::<Rotation<f64,2>>() * mk::<Rotation<f64,2>>(); } // accept transform-product
fn p8125() { let _: Rotation<f64,2> = &mk::<Rotation<f64,2>>() * &mk::<Rotation<f64,2>>(); } // accept transform-product
fn p8126() { let _: Point<f64,2> = mk::<Rotation<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8127() { let _: Point<f64,2> = mk::<Rotation<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8128() { let _: Point<f64,2> = &mk::<Rotation<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8129() { let _: Point<f64,2> = &mk::<Rotation<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8130() { let _: Vector<f64,2> = mk::<Rotation<f64,2>>().apply_vector(&mk::<Vector<f64,2>>()); } // accept transform-vector
fn p8131() { let _: Point<f64,2> = mk::<Rotation<f64,2>>().apply_point(&mk::<Point<f64,2>>()); } // accept transform-point
fn p8132() { let _: Matrix<f64,3,3> = mk::<Rotation<f64,2>>().to_affine_matrix(); } // accept transform-matrix
fn p8133() { let _: Scale<f64,2> = mk::<Scale<f64,2>>() * mk::<Scale<f64,2>>(); } // accept transform-product
fn p8134() { let _: Scale<f64,2> = mk::<Scale<f64,2>>() * &mk::<Scale<f64,2>>(); } // accept transform-product
fn p8135() { let _: Scale<f64,2> = &mk::<Scale<f64,2>>() * mk::<Scale<f64,2>>(); } // accept transform-product
fn p8136() { let _: Scale<f64,2> = &mk::<Scale<f64,2>>() * &mk::<Scale<f64,2>>(); } // accept transform-product
fn p8137() { let _: Point<f64,2> = mk::<Scale<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8138() { let _: Point<f64,2> = mk::<Scale<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8139() { let _: Point<f64,2> = &mk::<Scale<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8140() { let _: Point<f64,2> = &mk::<Scale<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8141() { let _: Vector<f64,2> = mk::<Scale<f64,2>>().apply_vector(&mk::<Vector<f64,2>>()); } // accept transform-vector
fn p8142() { let _: Point<f64,2> = mk::<Scale<f64,2>>().apply_point(&mk::<Point<f64,2>>()); } // accept transform-point
fn p8143() { let _: Matrix<f64,3,3> = mk::<Scale<f64,2>>().to_affine_matrix(); } // accept transform-matrix
fn p8144() { let _: Point<f64,2> = mk::<Reflection<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8145() { let _: Point<f64,2> = mk::<Reflection<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8146() { let _: Point<f64,2> = &mk::<Reflection<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8147() { let _: Point<f64,2> = &mk::<Reflection<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8148() { let _: Vector<f64,2> = mk::<Reflection<f64,2>>().apply_vector(&mk::<Vector<f64,2>>()); } // accept transform-vector
fn p8149() { let _: Point<f64,2> = mk::<Reflection<f64,2>>().apply_point(&mk::<Point<f64,2>>()); } // accept transform-point
fn p8150() { let _: Matrix<f64,3,3> = mk::<Reflection<f64,2>>().to_affine_matrix(); } // accept transform-matrix
fn p8151() { let _: Point<f64,2> = mk::<Shear<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8152() { let _: Point<f64,2> = mk::<Shear<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8153() { let _: Point<f64,2> = &mk::<Shear<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8154() { let _: Point<f64,2> = &mk::<Shear<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8155() { let _: Vector<f64,2> = mk::<Shear<f64,2>>().apply_vector(&mk::<Vector<f64,2>>()); } // accept transform-vector
fn p8156() { let _: Point<f64,2> = mk::<Shear<f64,2>>().apply_point(&mk::<Point<f64,2>>()); } // accept transform-point
fn p8157() { let _: Matrix<f64,3,3> = mk::<Shear<f64,2>>().to_affine_matrix(); } // accept transform-matrix
fn p8158() { let _: Isometry<f64,2> = mk::<Isometry<f64,2>>() * mk::<Isometry<f64,2>>(); } // accept transform-product
fn p8159() { let _: Isometry<f64,2> = mk::<Isometry<f64,2>>() * &mk::<Isometry<f64,2>>(); } // accept transform-product
fn p8160() { let _: Isometry<f64,2> = &mk::<Isometry<f64,2>>() * mk::<Isometry<f64,2>>(); } // accept transform-product
fn p8161() { let _: Isometry<f64,2> = &mk::<Isometry<f64,2>>() * &mk::<Isometry<f64,2>>(); } // accept transform-product
fn p8162() { let _: Point<f64,2> = mk::<Isometry<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8163() { let _: Point<f64,2> = mk::<Isometry<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8164() { let _: Point<f64,2> = &mk::<Isometry<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8165() { let _: Point<f64,2> = &mk::<Isometry<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8166() { let _: Vector<f64,2> = mk::<Isometry<f64,2>>().apply_vector(&mk::<Vector<f64,2>>()); } // accept transform-vector
fn p8167() { let _: Point<f64,2> = mk::<Isometry<f64,2>>().apply_point(&mk::<Point<f64,2>>()); } // accept transform-point
fn p8168() { let _: Matrix<f64,3,3> = mk::<Isometry<f64,2>>().to_affine_matrix(); } // accept transform-matrix
fn p8169() { let _: Similarity<f64,2> = mk::<Similarity<f64,2>>() * mk::<Similarity<f64,2>>(); } // accept transform-product
fn p8170() { let _: Similarity<f64,2> = mk::<Similarity<f64,2>>() * &mk::<Similarity<f64,2>>(); } // accept transform-product
fn p8171() { let _: Similarity<f64,2> = &mk::<Similarity<f64,2>>() * mk::<Similarity<f64,2>>(); } // accept transform-product
fn p8172() { let _: Similarity<f64,2> = &mk::<Similarity<f64,2>>() * &mk::<Similarity<f64,2>>(); } // accept transform-product
fn p8173() { let _: Point<f64,2> = mk::<Similarity<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8174() { let _: Point<f64,2> = mk::<Similarity<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8175() { let _: Point<f64,2> = &mk::<Similarity<f64,2>>() * mk::<Point<f64,2>>(); } // accept transform-point
fn p8176() { let _: Point<f64,2> = &mk::<Similarity<f64,2>>() * &mk::<Point<f64,2>>(); } // accept transform-point
fn p8177() { let _: Vector<f64,2> = mk::<Similarity<f64,2>>().apply_vector(&mk::<Vector<f64,2>>()); } // accept transform-vector
fn p8178() { let _: Point<f64,2> = mk::<Similarity<f64,2>>().apply_point(&mk::<Point<f64,2>>()); } // accept transform-point
fn p8179() { let _: Matrix<f64,3,3> = mk::<Similarity<f64,2>>().to_affine_matrix(); } // accept transform-matrix
fn p8180() { let _ = Isometry::<f64,2>::from_parts(&mk::<Translation<f64,2>>(), &mk::<Rotation<f64,2>>()); } // accept parts
fn p8181() { let _ = Similarity::<f64,2>::from_parts(&mk::<Translation<f64,2>>(), &mk::<Rotation<f64,2>>(), 1.0); } // accept parts
fn p8182() { let _ = Translation::<f64,2>::from_vector(&mk::<Vector<f64,2>>()); } // accept parts
fn p8183() { let _: Translation<f64,2> = mk::<Translation<f64,2>>() * mk::<Translation<f64,3>>(); } // reject transform-product
fn p8184() { let _: Translation<f64,2> = mk::<Translation<f64,2>>() * &mk::<Translation<f64,3>>(); } // reject transform-product
fn p8185() { let _: Translation<f64,2> = &mk::<Translation<f64,2>>() * mk::<Translation<f64,3>>(); } // reject transform-product
fn p8186() { let _: Translation<f64,2> = &mk::<Translation<f64,2>>() * &mk::<Translation<f64,3>>(); } // reject transform-product
fn p8187() { let _: Point<f64,2> = mk::<Translation<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8188() { let _: Point<f64,2> = mk::<Translation<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8189() { let _: Point<f64,2> = &mk::<Translation<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8190() { let _: Point<f64,2> = &mk::<Translation<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8191() { let _: Vector<f64,3> = mk::<Translation<f64,2>>().apply_vector(&mk::<Vector<f64,3>>()); } // reject transform-vector
fn p8192() { let _: Point<f64,3> = mk::<Translation<f64,2>>().apply_point(&mk::<Point<f64,3>>()); } // reject transform-point
fn p8193() { let _: Matrix<f64,4,4> = mk::<Translation<f64,2>>().to_affine_matrix(); } // reject transform-matrix
fn p8194() { let _: Rotation<f64,2> = mk::<Rotation<f64,2>>() * mk::<Rotation<f64,3>>(); } // reject transform-product
fn p8195() { let _: Rotation<f64,2> = mk::<Rotation<f64,2>>() * &mk::<Rotation<f64,3>>(); } // reject transform-product
fn p8196() { let _: Rotation<f64,2> = &mk::<Rotation<f64,2>>() * mk::<Rotation<f64,3>>(); } // reject transform-product
fn p8197() { let _: Rotation<f64,2> = &mk::<Rotation<f64,2>>() * &mk::<Rotation<f64,3>>(); } // reject transform-product
fn p8198() { let _: Point<f64,2> = mk::<Rotation<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8199() { let _: Point<f64,2> = mk::<Rotation<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8200() { let _: Point<f64,2> = &mk::<Rotation<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8201() { let _: Point<f64,2> = &mk::<Rotation<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8202() { let _: Vector<f64,3> = mk::<Rotation<f64,2>>().apply_vector(&mk::<Vector<f64,3>>()); } // reject transform-vector
fn p8203() { let _: Point<f64,3> = mk::<Rotation<f64,2>>().apply_point(&mk::<Point<f64,3>>()); } // reject transform-point
fn p8204() { let _: Matrix<f64,4,4> = mk::<Rotation<f64,2>>().to_affine_matrix(); } // reject transform-matrix
fn p8205() { let _: Scale<f64,2> = mk::<Scale<f64,2>>() * mk::<Scale<f64,3>>(); } // reject transform-product
fn p8206() { let _: Scale<f64,2> = mk::<Scale<f64,2>>() * &mk::<Scale<f64,3>>(); } // reject transform-product
fn p8207() { let _: Scale<f64,2> = &mk::<Scale<f64,2>>() * mk::<Scale<f64,3>>(); } // reject transform-product
fn p8208() { let _: Scale<f64,2> = &mk::<Scale<f64,2>>() * &mk::<Scale<f64,3>>(); } // reject transform-product
fn p8209() { let _: Point<f64,2> = mk::<Scale<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8210() { let _: Point<f64,2> = mk::<Scale<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8211() { let _: Point<f64,2> = &mk::<Scale<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8212() { let _: Point<f64,2> = &mk::<Scale<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8213() { let _: Vector<f64,3> = mk::<Scale<f64,2>>().apply_vector(&mk::<Vector<f64,3>>()); } // reject transform-vector
fn p8214() { let _: Point<f64,3> = mk::<Scale<f64,2>>().apply_point(&mk::<Point<f64,3>>()); } // reject transform-point
fn p8215() { let _: Matrix<f64,4,4> = mk::<Scale<f64,2>>().to_affine_matrix(); } // reject transform-matrix
fn p8216() { let _: Point<f64,2> = mk::<Reflection<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8217() { let _: Point<f64,2> = mk::<Reflection<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8218() { let _: Point<f64,2> = &mk::<Reflection<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8219() { let _: Point<f64,2> = &mk::<Reflection<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8220() { let _: Vector<f64,3> = mk::<Reflection<f64,2>>().apply_vector(&mk::<Vector<f64,3>>()); } // reject transform-vector
fn p8221() { let _: Point<f64,3> = mk::<Reflection<f64,2>>().apply_point(&mk::<Point<f64,3>>()); } // reject transform-point
fn p8222() { let _: Matrix<f64,4,4> = mk::<Reflection<f64,2>>().to_affine_matrix(); } // reject transform-matrix
fn p8223() { let _: Point<f64,2> = mk::<Shear<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8224() { let _: Point<f64,2> = mk::<Shear<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8225() { let _: Point<f64,2> = &mk::<Shear<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8226() { let _: Point<f64,2> = &mk::<Shear<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8227() { let _: Vector<f64,3> = mk::<Shear<f64,2>>().apply_vector(&mk::<Vector<f64,3>>()); } // reject transform-vector
fn p8228() { let _: Point<f64,3> = mk::<Shear<f64,2>>().apply_point(&mk::<Point<f64,3>>()); } // reject transform-point
fn p8229() { let _: Matrix<f64,4,4> = mk::<Shear<f64,2>>().to_affine_matrix(); } // reject transform-matrix
fn p8230() { let _: Isometry<f64,2> = mk::<Isometry<f64,2>>() * mk::<Isometry<f64,3>>(); } // reject transform-product
fn p8231() { let _: Isometry<f64,2> = mk::<Isometry<f64,2>>() * &mk::<Isometry<f64,3>>(); } // reject transform-product
fn p8232() { let _: Isometry<f64,2> = &mk::<Isometry<f64,2>>() * mk::<Isometry<f64,3>>(); } // reject transform-product
fn p8233() { let _: Isometry<f64,2> = &mk::<Isometry<f64,2>>() * &mk::<Isometry<f64,3>>(); } // reject transform-product
fn p8234() { let _: Point<f64,2> = mk::<Isometry<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8235() { let _: Point<f64,2> = mk::<Isometry<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8236() { let _: Point<f64,2> = &mk::<Isometry<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8237() { let _: Point<f64,2> = &mk::<Isometry<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8238() { let _: Vector<f64,3> = mk::<Isometry<f64,2>>().apply_vector(&mk::<Vector<f64,3>>()); } // reject transform-vector
fn p8239() { let _: Point<f64,3> = mk::<Isometry<f64,2>>().apply_point(&mk::<Point<f64,3>>()); } // reject transform-point
fn p8240() { let _: Matrix<f64,4,4> = mk::<Isometry<f64,2>>().to_affine_matrix(); } // reject transform-matrix
fn p8241() { let _: Similarity<f64,2> = mk::<Similarity<f64,2>>() * mk::<Similarity<f64,3>>(); } // reject transform-product
fn p8242() { let _: Similarity<f64,2> = mk::<Similarity<f64,2>>() * &mk::<Similarity<f64,3>>(); } // reject transform-product
fn p8243() { let _: Similarity<f64,2> = &mk::<Similarity<f64,2>>() * mk::<Similarity<f64,3>>(); } // reject transform-product
fn p8244() { let _: Similarity<f64,2> = &mk::<Similarity<f64,2>>() * &mk::<Similarity<f64,3>>(); } // reject transform-product
fn p8245() { let _: Point<f64,2> = mk::<Similarity<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8246() { let _: Point<f64,2> = mk::<Similarity<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8247() { let _: Point<f64,2> = &mk::<Similarity<f64,2>>() * mk::<Point<f64,3>>(); } // reject transform-point
fn p8248() { let _: Point<f64,2> = &mk::<Similarity<f64,2>>() * &mk::<Point<f64,3>>(); } // reject transform-point
fn p8249() { let _: Vector<f64,3> = mk::<Similarity<f64,2>>().apply_vector(&mk::<Vector<f64,3>>()); } // reject transform-vector
fn p8250() { let _: Point<f64,3> = mk::<Similarity<f64,2>>().apply_point(&mk::<Point<f64,3>>()); } // reject transform-point
fn p8251() { let _: Matrix<f64,4,4> = mk::<Similarity<f64,2>>().to_affine_matrix(); } // reject transform-matrix
fn p8252() { let _ = Isometry::<f64,2>::from_parts(&mk::<Translation<f64,2>>(), &mk::<Rotation<f64,3>>()); } // reject parts
fn p8253() { let _ = Similarity::<f64,2>::from_parts(&mk::<Translation<f64,2>>(), &mk::<Rotation<f64,3>>(), 1.0); } // reject parts
fn p8254() { let _ = Translation::<f64,2>::from_vector(&mk::<Vector<f64,3>>()); } // reject parts
fn p8255() { let _ = Transform::<f64,2,2>::identity(); } // reject transform-size
fn p8256() { let _ = Transform::<f64,2,3>::identity(); } // accept transform-size
fn p8257() { let _ = Transform::<f64,2,4>::identity(); } // reject transform-size
fn p8258() { let _ = Transform::<f64,2,5>::identity(); } // reject transform-size
fn p8259() { let _: Translation<f64,3> = mk::<Translation<f64,3>>() * mk::<Translation<f64,2>>(); } // reject transform-product
fn p8260() { let _: Translation<f64,3> = mk::<Translation<f64,3>>() * &mk::<Translation<f64,2>>(); } // reject transform-product
fn p8261() { let _: Translation<f64,3> = &mk::<Translation<f64,3>>() * mk::<Translation<f64,2>>(); } // reject transform-product
fn p8262() { let _: Translation<f64,3> = &mk::<Translation<f64,3>>() * &mk::<Translation<f64,2>>(); } // reject transform-product
fn p8263() { let _: Point<f64,3> = mk::<Translation<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8264() { let _: Point<f64,3> = mk::<Translation<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8265() { let _: Point<f64,3> = &mk::<Translation<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8266() { let _: Point<f64,3> = &mk::<Translation<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8267() { let _: Vector<f64,2> = mk::<Translation<f64,3>>().apply_vector(&mk::<Vector<f64,2>>()); } // reject transform-vector
fn p8268() { let _: Point<f64,2> = mk::<Translation<f64,3>>().apply_point(&mk::<Point<f64,2>>()); } // reject transform-point
fn p8269() { let _: Matrix<f64,3,3> = mk::<Translation<f64,3>>().to_affine_matrix(); } // reject transform-matrix
fn p8270() { let _: Rotation<f64,3> = mk::<Rotation<f64,3>>() * mk::<Rotation<f64,2>>(); } // reject transform-product
fn p8271() { let _: Rotation<f64,3> = mk::<Rotation<f64,3>>() * &mk::<Rotation<f64,2>>(); } // reject transform-product
fn p8272() { let _: Rotation<f64,3> = &mk::<Rotation<f64,3>>() * mk::<Rotation<f64,2>>(); } // reject transform-product
fn p8273() { let _: Rotation<f64,3> = &mk::<Rotation<f64,3>>() * &mk::<Rotation<f64,2>>(); } // reject transform-product
fn p8274() { let _: Point<f64,3> = mk::<Rotation<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8275() { let _: Point<f64,3> = mk::<Rotation<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8276() { let _: Point<f64,3> = &mk::<Rotation<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8277() { let _: Point<f64,3> = &mk::<Rotation<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8278() { let _: Vector<f64,2> = mk::<Rotation<f64,3>>().apply_vector(&mk::<Vector<f64,2>>()); } // reject transform-vector
fn p8279() { let _: Point<f64,2> = mk::<Rotation<f64,3>>().apply_point(&mk::<Point<f64,2>>()); } // reject transform-point
fn p8280() { let _: Matrix<f64,3,3> = mk::<Rotation<f64,3>>().to_affine_matrix(); } // reject transform-matrix
fn p8281() { let _: Scale<f64,3> = mk::<Scale<f64,3>>() * mk::<Scale<f64,2>>(); } // reject transform-product
fn p8282() { let _: Scale<f64,3> = mk::<Scale<f64,3>>() * &mk::<Scale<f64,2>>(); } // reject transform-product
fn p8283() { let _: Scale<f64,3> = &mk::<Scale<f64,3>>() * mk::<Scale<f64,2>>(); } // reject transform-product
fn p8284() { let _: Scale<f64,3> = &mk::<Scale<f64,3>>() * &mk::<Scale<f64,2>>(); } // reject transform-product
fn p8285() { let _: Point<f64,3> = mk::<Scale<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8286() { let _: Point<f64,3> = mk::<Scale<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8287() { let _: Point<f64,3> = &mk::<Scale<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8288() { let _: Point<f64,3> = &mk::<Scale<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8289() { let _: Vector<f64,2> = mk::<Scale<f64,3>>().apply_vector(&mk::<Vector<f64,2>>()); } // reject transform-vector
fn p8290() { let _: Point<f64,2> = mk::<Scale<f64,3>>().apply_point(&mk::<Point<f64,2>>()); } // reject transform-point
fn p8291() { let _: Matrix<f64,3,3> = mk::<Scale<f64,3>>().to_affine_matrix(); } // reject transform-matrix
fn p8292() { let _: Point<f64,3> = mk::<Reflection<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8293() { let _: Point<f64,3> = mk::<Reflection<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8294() { let _: Point<f64,3> = &mk::<Reflection<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8295() { let _: Point<f64,3> = &mk::<Reflection<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8296() { let _: Vector<f64,2> = mk::<Reflection<f64,3>>().apply_vector(&mk::<Vector<f64,2>>()); } // reject transform-vector
fn p8297() { let _: Point<f64,2> = mk::<Reflection<f64,3>>().apply_point(&mk::<Point<f64,2>>()); } // reject transform-point
fn p8298() { let _: Matrix<f64,3,3> = mk::<Reflection<f64,3>>().to_affine_matrix(); } // reject transform-matrix
fn p8299() { let _: Point<f64,3> = mk::<Shear<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8300() { let _: Point<f64,3> = mk::<Shear<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8301() { let _: Point<f64,3> = &mk::<Shear<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8302() { let _: Point<f64,3> = &mk::<Shear<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8303() { let _: Vector<f64,2> = mk::<Shear<f64,3>>().apply_vector(&mk::<Vector<f64,2>>()); } // reject transform-vector
fn p8304() { let _: Point<f64,2> = mk::<Shear<f64,3>>().apply_point(&mk::<Point<f64,2>>()); } // reject transform-point
fn p8305() { let _: Matrix<f64,3,3> = mk::<Shear<f64,3>>().to_affine_matrix(); } // reject transform-matrix
fn p8306() { let _: Isometry<f64,3> = mk::<Isometry<f64,3>>() * mk::<Isometry<f64,2>>(); } // reject transform-product
fn p8307() { let _: Isometry<f64,3> = mk::<Isometry<f64,3>>() * &mk::<Isometry<f64,2>>(); } // reject transform-product
fn p8308() { let _: Isometry<f64,3> = &mk::<Isometry<f64,3>>() * mk::<Isometry<f64,2>>(); } // reject transform-product
fn p8309() { let _: Isometry<f64,3> = &mk::<Isometry<f64,3>>() * &mk::<Isometry<f64,2>>(); } // reject transform-product
fn p8310() { let _: Point<f64,3> = mk::<Isometry<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8311() { let _: Point<f64,3> = mk::<Isometry<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8312() { let _: Point<f64,3> = &mk::<Isometry<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8313() { let _: Point<f64,3> = &mk::<Isometry<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8314() { let _: Vector<f64,2> = mk::<Isometry<f64,3>>().apply_vector(&mk::<Vector<f64,2>>()); } // reject transform-vector
fn p8315() { let _: Point<f64,2> = mk::<Isometry<f64,3>>().apply_point(&mk::<Point<f64,2>>()); } // reject transform-point
fn p8316() { let _: Matrix<f64,3,3> = mk::<Isometry<f64,3>>().to_affine_matrix(); } // reject transform-matrix
fn p8317() { let _: Similarity<f64,3> = mk::<Similarity<f64,3>>() * mk::<Similarity<f64,2>>(); } // reject transform-product
fn p8318() { let _: Similarity<f64,3> = mk::<Similarity<f64,3>>() * &mk::<Similarity<f64,2>>(); } // reject transform-product
fn p8319() { let _: Similarity<f64,3> = &mk::<Similarity<f64,3>>() * mk::<Similarity<f64,2>>(); } // reject transform-product
fn p8320() { let _: Similarity<f64,3> = &mk::<Similarity<f64,3>>() * &mk::<Similarity<f64,2>>(); } // reject transform-product
fn p8321() { let _: Point<f64,3> = mk::<Similarity<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8322() { let _: Point<f64,3> = mk::<Similarity<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8323() { let _: Point<f64,3> = &mk::<Similarity<f64,3>>() * mk::<Point<f64,2>>(); } // reject transform-point
fn p8324() { let _: Point<f64,3> = &mk::<Similarity<f64,3>>() * &mk::<Point<f64,2>>(); } // reject transform-point
fn p8325() { let _: Vector<f64,2> = mk::<Similarity<f64,3>>().apply_vector(&mk::<Vector<f64,2>>()); } // reject transform-vector
fn p8326() { let _: Point<f64,2> = mk::<Similarity<f64,3>>().apply_point(&mk::<Point<f64,2>>()); } // reject transform-point
fn p8327() { let _: Matrix<f64,3,3> = mk::<Similarity<f64,3>>().to_affine_matrix(); } // reject transform-matrix
fn p8328() { let _ = Isometry::<f64,3>::from_parts(&mk::<Translation<f64,3>>(), &mk::<Rotation<f64,2>>()); } // reject parts
fn p8329() { let _ = Similarity::<f64,3>::from_parts(&mk::<Translation<f64,3>>(), &mk::<Rotation<f64,2>>(), 1.0); } // reject parts
fn p8330() { let _ = Translation::<f64,3>::from_vector(&mk::<Vector<f64,2>>()); } // reject parts
fn p8331() { let _: Translation<f64,3> = mk::<Translation<f64,3>>() * mk::<Translation<f64,3>>(); } // accept transform-product
fn p8332() { let _: Translation<f64,3> = mk::<Translation<f64,3>>() * &mk::<Translation<f64,3>>(); } // accept transform-product
fn p8333() { let _: Translation<f64,3> = &mk::<Translation<f64,3>>() * mk::<Translation<f64,3>>(); } // accept transform-product
fn p8334() { let _: Translation<f64,3> = &mk::<Translation<f64,3>>() * &mk::<Translation<f64,3>>(); } // accept transform-product
fn p8335() { let _: Point<f64,3> = mk::<Translation<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8336() { let _: Point<f64,3> = mk::<Translation<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8337() { let _: Point<f64,3> = &mk::<Translation<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8338() { let _: Point<f64,3> = &mk::<Translation<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8339() { let _: Vector<f64,3> = mk::<Translation<f64,3>>().apply_vector(&mk::<Vector<f64,3>>()); } // accept transform-vector
fn p8340() { let _: Point<f64,3> = mk::<Translation<f64,3>>().apply_point(&mk::<Point<f64,3>>()); } // accept transform-point
fn p8341() { let _: Matrix<f64,4,4> = mk::<Translation<f64,3>>().to_affine_matrix(); } // accept transform-matrix
fn p8342() { let _: Rotation<f64,3> = mk::<Rotation<f64,3>>() * mk::<Rotation<f64,3>>(); } // accept transform-product
fn p8343() { let _: Rotation<f64,3> = mk::<Rotation<f64,3>>() * &mk::<Rotation<f64,3>>(); } // accept transform-product
fn p8344() { let _: Rotation<f64,3> = &mk::<Rotation<f64,3>>() * mk::<Rotation<f64,3>>(); } // accept transform-product
fn p8345() { let _: Rotation<f64,3> = &mk::<Rotation<f64,3>>() * &mk::<Rotation<f64,3>>(); } // accept transform-product
fn p8346() { let _: Point<f64,3> = mk::<Rotation<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8347() { let _: Point<f64,3> = mk::<Rotation<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8348() { let _: Point<f64,3> = &mk::<Rotation<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8349() { let _: Point<f64,3> = &mk::<Rotation<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8350() { let _: Vector<f64,3> = mk::<Rotation<f64,3>>().apply_vector(&mk::<Vector<f64,3>>()); } // accept transform-vector
fn p8351() { let _: Point<f64,3> = mk::<Rotation<f64,3>>().apply_point(&mk::<Point<f64,3>>()); } // accept transform-point
fn p8352() { let _: Matrix<f64,4,4> = mk::<Rotation<f64,3>>().to_affine_matrix(); } // accept transform-matrix
fn p8353() { let _: Scale<f64,3> = mk::<Scale<f64,3>>() * mk::<Scale<f64,3>>(); } // accept transform-product
fn p8354() { let _: Scale<f64,3> = mk::<Scale<f64,3>>() * &mk::<Scale<f64,3>>(); } // accept transform-product
fn p8355() { let _: Scale<f64,3> = &mk::<Scale<f64,3>>() * mk::<Scale<f64,3>>(); } // accept transform-product
fn p8356() { let _: Scale<f64,3> = &mk::<Scale<f64,3>>() * &mk::<Scale<f64,3>>(); } // accept transform-product
fn p8357() { let _: Point<f64,3> = mk::<Scale<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8358() { let _: Point<f64,3> = mk::<Scale<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8359() { let _: Point<f64,3> = &mk::<Scale<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8360() { let _: Point<f64,3> = &mk::<Scale<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8361() { let _: Vector<f64,3> = mk::<Scale<f64,3>>().apply_vector(&mk::<Vector<f64,3>>()); } // accept transform-vector
fn p8362() { let _: Point<f64,3> = mk::<Scale<f64,3>>().apply_point(&mk::<Point<f64,3>>()); } // accept transform-point
fn p8363() { let _: Matrix<f64,4,4> = mk::<Scale<f64,3>>().to_affine_matrix(); } // accept transform-matrix
fn p8364() { let _: Point<f64,3> = mk::<Reflection<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8365() { let _: Point<f64,3> = mk::<Reflection<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8366() { let _: Point<f64,3> = &mk::<Reflection<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8367() { let _: Point<f64,3> = &mk::<Reflection<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8368() { let _: Vector<f64,3> = mk::<Reflection<f64,3>>().apply_vector(&mk::<Vector<f64,3>>()); } // accept transform-vector
fn p8369() { let _: Point<f64,3> = mk::<Reflection<f64,3>>().apply_point(&mk::<Point<f64,3>>()); } // accept transform-point
fn p8370() { let _: Matrix<f64,4,4> = mk::<Reflection<f64,3>>().to_affine_matrix(); } // accept transform-matrix
fn p8371() { let _: Point<f64,3> = mk::<Shear<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8372() { let _: Point<f64,3> = mk::<Shear<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8373() { let _: Point<f64,3> = &mk::<Shear<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8374() { let _: Point<f64,3> = &mk::<Shear<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8375() { let _: Vector<f64,3> = mk::<Shear<f64,3>>().apply_vector(&mk::<Vector<f64,3>>()); } // accept transform-vector
fn p8376() { let _: Point<f64,3> = mk::<Shear<f64,3>>().apply_point(&mk::<Point<f64,3>>()); } // accept transform-point
fn p8377() { let _: Matrix<f64,4,4> = mk::<Shear<f64,3>>().to_affine_matrix(); } // accept transform-matrix
fn p8378() { let _: Isometry<f64,3> = mk::<Isometry<f64,3>>() * mk::<Isometry<f64,3>>(); } // accept transform-product
fn p8379() { let _: Isometry<f64,3> = mk::<Isometry<f64,3>>() * &mk::<Isometry<f64,3>>(); } // accept transform-product
fn p8380() { let _: Isometry<f64,3> = &mk::<Isometry<f64,3>>() * mk::<Isometry<f64,3>>(); } // accept transform-product
fn p8381() { let _: Isometry<f64,3> = &mk::<Isometry<f64,3>>() * &mk::<Isometry<f64,3>>(); } // accept transform-product
fn p8382() { let _: Point<f64,3> = mk::<Isometry<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8383() { let _: Point<f64,3> = mk::<Isometry<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8384() { let _: Point<f64,3> = &mk::<Isometry<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8385() { let _: Point<f64,3> = &mk::<Isometry<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8386() { let _: Vector<f64,3> = mk::<Isometry<f64,3>>().apply_vector(&mk::<Vector<f64,3>>()); } // accept transform-vector
fn p8387() { let _: Point<f64,3> = mk::<Isometry<f64,3>>().apply_point(&mk::<Point<f64,3>>()); } // accept transform-point
fn p8388() { let _: Matrix<f64,4,4> = mk::<Isometry<f64,3>>().to_affine_matrix(); } // accept transform-matrix
fn p8389() { let _: Similarity<f64,3> = mk::<Similarity<f64,3>>() * mk::<Similarity<f64,3>>(); } // accept transform-product
fn p8390() { let _: Similarity<f64,3> = mk::<Similarity<f64,3>>() * &mk::<Similarity<f64,3>>(); } // accept transform-product
fn p8391() { let _: Similarity<f64,3> = &mk::<Similarity<f64,3>>() * mk::<Similarity<f64,3>>(); } // accept transform-product
fn p8392() { let _: Similarity<f64,3> = &mk::<Similarity<f64,3>>() * &mk::<Similarity<f64,3>>(); } // accept transform-product
fn p8393() { let _: Point<f64,3> = mk::<Similarity<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8394() { let _: Point<f64,3> = mk::<Similarity<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8395() { let _: Point<f64,3> = &mk::<Similarity<f64,3>>() * mk::<Point<f64,3>>(); } // accept transform-point
fn p8396() { let _: Point<f64,3> = &mk::<Similarity<f64,3>>() * &mk::<Point<f64,3>>(); } // accept transform-point
fn p8397() { let _: Vector<f64,3> = mk::<Similarity<f64,3>>().apply_vector(&mk::<Vector<f64,3>>()); } // accept transform-vector
fn p8398() { let _: Point<f64,3> = mk::<Similarity<f64,3>>().apply_point(&mk::<Point<f64,3>>()); } // accept transform-point
fn p8399() { let _: Matrix<f64,4,4> = mk::<Similarity<f64,3>>().to_affine_matrix(); } // accept transform-matrix
fn p8400() { let _ = Isometry::<f64,3>::from_parts(&mk::<Translation<f64,3>>(), &mk::<Rotation<f64,3>>()); } // accept parts
fn p8401() { let _ = Similarity::<f64,3>::from_parts(&mk::<Translation<f64,3>>(), &mk::<Rotation<f64,3>>(), 1.0); } // accept parts
fn p8402() { let _ = Translation::<f64,3>::from_vector(&mk::<Vector<f64,3>>()); } // accept parts
fn p8403() { let _ = Transform::<f64,3,2>::identity(); } // reject transform-size
fn p8404() { let _ = Transform::<f64,3,3>::identity(); } // reject transform-size
fn p8405() { let _ = Transform::<f64,3,4>::identity(); } // accept transform-size
fn p8406() { let _ = Transform::<f64,3,5>::identity(); } // reject transform-size
fn p8407() { let _ = mk::<Vector<f64,3>>() + mk::<Vector<f32,3>>(); } // reject mixed-scalar
fn p8408() { let _ = mk::<Matrix<f64,2,2>>() + mk::<Matrix<f32,2,2>>(); } // reject mixed-scalar
fn p8409() { let _ = mk::<Vector<f64,3>>() - mk::<Vector<f32,3>>(); } // reject mixed-scalar
fn p8410() { let _ = mk::<Matrix<f64,2,2>>() - mk::<Matrix<f32,2,2>>(); } // reject mixed-scalar
fn p8411() { let _ = mk::<Matrix<f64,2,2>>() * mk::<Vector<f32,2>>(); } // reject mixed-scalar
fn p8412() { let _ = mk::<Matrix<f64,2,2>>() * mk::<Matrix<f32,2,2>>(); } // reject mixed-scalar
fn p8413() { let _ = mk::<Vector<f32,3>>() + mk::<Vector<f64,3>>(); } // reject mixed-scalar
fn p8414() { let _ = mk::<Matrix<f32,2,2>>() + mk::<Matrix<f64,2,2>>(); } // reject mixed-scalar
fn p8415() { let _ = mk::<Vector<f32,3>>() - mk::<Vector<f64,3>>(); } // reject mixed-scalar
fn p8416() { let _ = mk::<Matrix<f32,2,2>>() - mk::<Matrix<f64,2,2>>(); } // reject mixed-scalar
fn p8417() { let _ = mk::<Matrix<f32,2,2>>() * mk::<Vector<f64,2>>(); } // reject mixed-scalar
fn p8418() { let _ = mk::<Matrix<f32,2,2>>() * mk::<Matrix<f64,2,2>>(); } // reject mixed-scalar
fn p8419() { let _ = mk::<Vector<i32,3>>() + mk::<Vector<i64,3>>(); } // reject mixed-scalar
fn p8420() { let _ = mk::<Matrix<i32,2,2>>() + mk::<Matrix<i64,2,2>>(); } // reject mixed-scalar
fn p8421() { let _ = mk::<Vector<i32,3>>() - mk::<Vector<i64,3>>(); } // reject mixed-scalar
fn p8422() { let _ = mk::<Matrix<i32,2,2>>() - mk::<Matrix<i64,2,2>>(); } // reject mixed-scalar
fn p8423() { let _ = mk::<Matrix<i32,2,2>>() * mk::<Vector<i64,2>>(); } // reject mixed-scalar
fn p8424() { let _ = mk::<Matrix<i32,2,2>>() * mk::<Matrix<i64,2,2>>(); } // reject mixed-scalar
fn p8425() { let _ = mk::<Vector<u32,3>>() + mk::<Vector<i32,3>>(); } // reject mixed-scalar
fn p8426() { let _ = mk::<Matrix<u32,2,2>>() + mk::<Matrix<i32,2,2>>(); } // reject mixed-scalar
fn p8427() { let _ = mk::<Vector<u32,3>>() - mk::<Vector<i32,3>>(); } // reject mixed-scalar
fn p8428() { let _ = mk::<Matrix<u32,2,2>>() - mk::<Matrix<i32,2,2>>(); } // reject mixed-scalar
fn p8429() { let _ = mk::<Matrix<u32,2,2>>() * mk::<Vector<i32,2>>(); } // reject mixed-scalar
fn p8430() { let _ = mk::<Matrix<u32,2,2>>() * mk::<Matrix<i32,2,2>>(); } // reject mixed-scalar
fn p8431() { let _: Radians<f64> = mk::<Radians<f64>>() + mk::<Radians<f64>>(); } // accept angle-units
fn p8432() { let _: Radians<f64> = mk::<Radians<f64>>() + &mk::<Radians<f64>>(); } // accept angle-units
fn p8433() { let _: Radians<f64> = &mk::<Radians<f64>>() + mk::<Radians<f64>>(); } // accept angle-units
fn p8434() { let _: Radians<f64> = &mk::<Radians<f64>>() + &mk::<Radians<f64>>(); } // accept angle-units
fn p8435() { let _: Radians<f64> = mk::<Radians<f64>>() - mk::<Radians<f64>>(); } // accept angle-units
fn p8436() { let _: Radians<f64> = mk::<Radians<f64>>() - &mk::<Radians<f64>>(); } // accept angle-units
fn p8437() { let _: Radians<f64> = &mk::<Radians<f64>>() - mk::<Radians<f64>>(); } // accept angle-units
fn p8438() { let _: Radians<f64> = &mk::<Radians<f64>>() - &mk::<Radians<f64>>(); } // accept angle-units
fn p8439() { let mut x = mk::<Radians<f64>>(); x += mk::<Radians<f64>>(); } // accept angle-units
fn p8440() { let mut x = mk::<Radians<f64>>(); x -= mk::<Radians<f64>>(); } // accept angle-units
fn p8441() { let _ = mk::<Radians<f64>>() == mk::<Radians<f64>>(); } // accept angle-units
fn p8442() { let _ = mk::<Radians<f64>>() < mk::<Radians<f64>>(); } // accept angle-units
fn p8443() { let _ = mk::<Radians<f64>>() * mk::<Radians<f64>>(); } // reject angle-units
fn p8444() { let _: Radians<f64> = mk::<Radians<f64>>() + mk::<Degrees<f64>>(); } // reject angle-units
fn p8445() { let _: Radians<f64> = mk::<Radians<f64>>() + &mk::<Degrees<f64>>(); } // reject angle-units
fn p8446() { let _: Radians<f64> = &mk::<Radians<f64>>() + mk::<Degrees<f64>>(); } // reject angle-units
fn p8447() { let _: Radians<f64> = &mk::<Radians<f64>>() + &mk::<Degrees<f64>>(); } // reject angle-units
fn p8448() { let _: Radians<f64> = mk::<Radians<f64>>() - mk::<Degrees<f64>>(); } // reject angle-units
fn p8449() { let _: Radians<f64> = mk::<Radians<f64>>() - &mk::<Degrees<f64>>(); } // reject angle-units
fn p8450() { let _: Radians<f64> = &mk::<Radians<f64>>() - mk::<Degrees<f64>>(); } // reject angle-units
fn p8451() { let _: Radians<f64> = &mk::<Radians<f64>>() - &mk::<Degrees<f64>>(); } // reject angle-units
fn p8452() { let mut x = mk::<Radians<f64>>(); x += mk::<Degrees<f64>>(); } // reject angle-units
fn p8453() { let mut x = mk::<Radians<f64>>(); x -= mk::<Degrees<f64>>(); } // reject angle-units
fn p8454() { let _ = mk::<Radians<f64>>() == mk::<Degrees<f64>>(); } // reject angle-units
fn p8455() { let _ = mk::<Radians<f64>>() < mk::<Degrees<f64>>(); } // reject angle-units
fn p8456() { let _ = mk::<Radians<f64>>() * mk::<Degrees<f64>>(); } // reject angle-units
fn p8457() { let _ = mk::<Radians<f64>>() + 1.0f64; } // reject angle-units
fn p8458() { let _: f64 = mk::<Radians<f64>>(); } // reject angle-units
fn p8459() { let _: Degrees<f64> = mk::<Degrees<f64>>() + mk::<Radians<f64>>(); } // reject angle-units
fn p8460() { let _: Degrees<f64> = mk::<Degrees<f64>>() + &mk::<Radians<f64>>(); } // reject angle-units
fn p8461() { let _: Degrees<f64> = &mk::<Degrees<f64>>() + mk::<Radians<f64>>(); } // reject angle-units
fn p8462() { let _: Degrees<f64> = &mk::<Degrees<f64>>() + &mk::<Radians<f64>>(); } // reject angle-units
fn p8463() { let _: Degrees<f64> = mk::<Degrees<f64>>() - mk::<Radians<f64>>(); } // reject angle-units
fn p8464() { let _: Degrees<f64> = mk::<Degrees<f64>>() - &mk::<Radians<f64>>(); } // reject angle-units
fn p8465() { let _: Degrees<f64> = &mk::<Degrees<f64>>() - mk::<Radians<f64>>(); } // reject angle-units
fn p8466() { let _: Degrees<f64> = &mk::<Degrees<f64>>() - &mk::<Radians<f64>>(); } // reject angle-units
fn p8467() { let mut x = mk::<Degrees<f64>>(); x += mk::<Radians<f64>>(); } // reject angle-units
fn p8468() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Radians<f64>>(); } // reject angle-units
fn p8469() { let _ = mk::<Degrees<f64>>() == mk::<Radians<f64>>(); } // reject angle-units
fn p8470() { let _ = mk::<Degrees<f64>>() < mk::<Radians<f64>>(); } // reject angle-units
fn p8471() { let _ = mk::<Degrees<f64>>() * mk::<Radians<f64>>(); } // reject angle-units
fn p8472() { let _: Degrees<f64> = mk::<Degrees<f64>>() + mk::<Degrees<f64>>(); } // accept angle-units
fn p8473() { let _: Degrees<f64> = mk::<Degrees<f64>>() + &mk::<Degrees<f64>>(); } // accept angle-units
fn p8474() { let _: Degrees<f64> = &mk::<Degrees<f64>>() + mk::<Degrees<f64>>(); } // accept angle-units
fn p8475() { let _: Degrees<f64> = &mk::<Degrees<f64>>() + &mk::<Degrees<f64>>(); } // accept angle-units
fn p8476() { let _: Degrees<f64> = mk::<Degrees<f64>>() - mk::<Degrees<f64>>(); } // accept angle-units
fn p8477() { let _: Degrees<f64> = mk::<Degrees<f64>>() - &mk::<Degrees<f64>>(); } // accept angle-units
fn p8478() { let _: Degrees<f64> = &mk::<Degrees<f64>>() - mk::<Degrees<f64>>(); } // accept angle-units
fn p8479() { let _: Degrees<f64> = &mk::<Degrees<f64>>() - &mk::<Degrees<f64>>(); } // accept angle-units
fn p8480() { let mut x = mk::<Degrees<f64>>(); x += mk::<Degrees<f64>>(); } // accept angle-units
fn p8481() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Degrees<f64>>(); } // accept angle-units
fn p8482() { let _ = mk::<Degrees<f64>>() == mk::<Degrees<f64>>(); } // accept angle-units
fn p8483() { let _ = mk::<Degrees<f64>>() < mk::<Degrees<f64>>(); } // accept angle-units
fn p8484() { let _ = mk::<Degrees<f64>>() * mk::<Degrees<f64>>(); } // reject angle-units
fn p8485() { let _ = mk::<Degrees<f64>>() + 1.0f64; } // reject angle-units
fn p8486() { let _: f64 = mk::<Degrees<f64>>(); } // reject angle-units
fn p8487() { let _ = mk::<Point<f64,1>>() + mk::<Point<f64,1>>(); } // reject affine-discipline
fn p8488() { let _ = mk::<Point<f64,1>>() * mk::<Point<f64,1>>(); } // reject affine-discipline
fn p8489() { let _: Point<f64,1> = mk::<Point<f64,1>>() - mk::<Point<f64,1>>(); } // reject affine-discipline
fn p8490() { let _: Vector<f64,1> = mk::<Point<f64,1>>() + mk::<Vector<f64,1>>(); } // reject affine-discipline
fn p8491() { let _: Point<f64,1> = mk::<Vector<f64,1>>(); } // reject affine-discipline
fn p8492() { let _ = mk::<Point<f64,2>>() + mk::<Point<f64,2>>(); } // reject affine-discipline
fn p8493() { let _ = mk::<Point<f64,2>>() * mk::<Point<f64,2>>(); } // reject affine-discipline
fn p8494() { let _: Point<f64,2> = mk::<Point<f64,2>>() - mk::<Point<f64,2>>(); } // reject affine-discipline
fn p8495() { let _: Vector<f64,2> = mk::<Point<f64,2>>() + mk::<Vector<f64,2>>(); } // reject affine-discipline
fn p8496() { let _: Point<f64,2> = mk::<Vector<f64,2>>(); } // reject affine-discipline
fn p8497() { let _ = mk::<Point<f64,3>>() + mk::<Point<f64,3>>(); } // reject affine-discipline
fn p8498() { let _ = mk::<Point<f64,3>>() * mk::<Point<f64,3>>(); } // reject affine-discipline
fn p8499() { let _: Point<f64,3> = mk::<Point<f64,3>>() - mk::<Point<f64,3>>(); } // reject affine-discipline
fn p8500() { let _: Vector<f64,3> = mk::<Point<f64,3>>() + mk::<Vector<f64,3>>(); } // reject affine-discipline
fn p8501() { let _: Point<f64,3> = mk::<Vector<f64,3>>(); } // reject affine-discipline
fn p8502() { let mut u = mk::<Unit<Vector3<f64>>>(); *u = mk::<Vector3<f64>>(); } // reject unit-immutable
fn p8503() { let mut u = mk::<Unit<Vector3<f64>>>(); let _: &mut Vector3<f64> = &mut u; } // reject unit-immutable
fn p8504() { let mut u = mk::<Unit<Vector3<f64>>>(); let _: &mut Vector3<f64> = u.as_mut(); } // reject unit-immutable
fn p8505() { let u = mk::<Unit<Vector3<f64>>>(); let _: &Vector3<f64> = u.as_ref(); let _: Vector3<f64> = u.into_inner(); } // accept unit-readable
fn p8506() { let mut u = mk::<Unit<Quaternion<f64>>>(); *u = mk::<Quaternion<f64>>(); } // reject unit-immutable
fn p8507() { let mut u = mk::<Unit<Quaternion<f64>>>(); let _: &mut Quaternion<f64> = &mut u; } // reject unit-immutable
fn p8508() { let mut u = mk::<Unit<Quaternion<f64>>>(); let _: &mut Quaternion<f64> = u.as_mut(); } // reject unit-immutable
fn p8509() { let u = mk::<Unit<Quaternion<f64>>>(); let _: &Quaternion<f64> = u.as_ref(); let _: Quaternion<f64> = u.into_inner(); } // accept unit-readable
fn p8510() { let mut u = mk::<Unit<Complex<f64>>>(); *u = mk::<Complex<f64>>(); } // reject unit-immutable
fn p8511() { let mut u = mk::<Unit<Complex<f64>>>(); let _: &mut Complex<f64> = &mut u; } // reject unit-immutable
fn p8512() { let mut u = mk::<Unit<Complex<f64>>>(); let _: &mut Complex<f64> = u.as_mut(); } // reject unit-immutable
fn p8513() { let u = mk::<Unit<Complex<f64>>>(); let _: &Complex<f64> = u.as_ref(); let _: Complex<f64> = u.into_inner(); } // accept unit-readable
fn p8514() { let mut u = mk::<Unit<Matrix3x3<f64>>>(); *u = mk::<Matrix3x3<f64>>(); } // reject unit-immutable
fn p8515() { let mut u = mk::<Unit<Matrix3x3<f64>>>(); let _: &mut Matrix3x3<f64> = &mut u; } // reject unit-immutable
fn p8516() { let mut u = mk::<Unit<Matrix3x3<f64>>>(); let _: &mut Matrix3x3<f64> = u.as_mut(); } // reject unit-immutable
fn p8517() { let u = mk::<Unit<Matrix3x3<f64>>>(); let _: &Matrix3x3<f64> = u.as_ref(); let _: Matrix3x3<f64> = u.into_inner(); } // accept unit-readable
fn p8518() { let mut u = mk::<Unit<Vector2<f32>>>(); *u = mk::<Vector2<f32>>(); } // reject unit-immutable
fn p8519() { let mut u = mk::<Unit<Vector2<f32>>>(); let _: &mut Vector2<f32> = &mut u; } // reject unit-immutable
fn p8520() { let mut u = mk::<Unit<Vector2<f32>>>(); let _: &mut Vector2<f32> = u.as_mut(); } // reject unit-immutable
fn p8521() { let u = mk::<Unit<Vector2<f32>>>(); let _: &Vector2<f32> = u.as_ref(); let _: Vector2<f32> = u.into_inner(); } // accept unit-readable
fn p8522() { let mut u = mk::<Unit<Vector3<f64>>>(); u.x = 2.0; } // reject unit-immutable
fn p8523() { let mut u = mk::<Unit<Vector3<f64>>>(); u[0] = 2.0; } // reject unit-immutable
fn p8524() { let mut u = mk::<Unit<Vector3<f64>>>(); u += mk::<Vector3<f64>>(); } // reject unit-immutable
fn p8525() { let mut u = mk::<Unit<Vector3<f64>>>(); u *= 2.0; } // reject unit-immutable
fn p8526() { let u = mk::<Unit<Vector3<f64>>>(); let _: f64 = u.x; } // accept unit-readable
fn p8527() { let _ = Matrix3x3::<f64>::from_angle_x(mk::<Radians<f64>>()); } // accept angle-parameter
fn p8528() { let _ = Quaternion::<f64>::from_axis_angle(&mk::<Unit<Vector3<f64>>>(), mk::<Radians<f64>>()); } // accept angle-parameter
fn p8529() { let _ = Rotation2::<f64>::from_angle(mk::<Radians<f64>>()); } // accept angle-parameter
fn p8530() { let _ = Matrix3x3::<f64>::from_angle_x(mk::<Degrees<f64>>()); } // accept angle-parameter
fn p8531() { let _ = Quaternion::<f64>::from_axis_angle(&mk::<Unit<Vector3<f64>>>(), mk::<Degrees<f64>>()); } // accept angle-parameter
fn p8532() { let _ = Rotation2::<f64>::from_angle(mk::<Degrees<f64>>()); } // accept angle-parameter
fn p8533() { let _ = Matrix3x3::<f64>::from_angle_x(1.0f64); } // reject angle-parameter
fn p8534() { let _ = Quaternion::<f64>::from_axis_angle(&mk::<Unit<Vector3<f64>>>(), 1.0f64); } // reject angle-parameter
fn p8535() { let _ = Rotation2::<f64>::from_angle(1.0f64); } // reject angle-parameter
fn p8536() { let _ = Quaternion::<f64>::from_axis_angle(&mk::<Vector3<f64>>(), mk::<Radians<f64>>()); } // reject unit-parameter
fn p8537() { let _ = Matrix3x3::<f64>::from_axis_angle(&mk::<Vector3<f64>>(), mk::<Radians<f64>>()); } // reject unit-parameter
fn p8538() { let _ = Matrix3x3::<f64>::from_reflection(&mk::<Vector3<f64>>()); } // reject unit-parameter
fn p8539() { let _: Vector3<f64> = mk::<Vector3<f64>>() + mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8540() { let _ = mk::<Vector3<f64>>() + mk::<Vector3<f32>>(); } // reject operator-precision
fn p8541() { let _ = mk::<Vector3<f32>>() + mk::<Vector3<f64>>(); } // reject operator-precision
fn p8542() { let _: Vector3<f64> = mk::<Vector3<f64>>() + &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8543() { let _ = mk::<Vector3<f64>>() + &mk::<Vector3<f32>>(); } // reject operator-precision
fn p8544() { let _ = mk::<Vector3<f32>>() + &mk::<Vector3<f64>>(); } // reject operator-precision
fn p8545() { let _: Vector3<f64> = &mk::<Vector3<f64>>() + mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8546() { let _ = &mk::<Vector3<f64>>() + mk::<Vector3<f32>>(); } // reject operator-precision
fn p8547() { let _ = &mk::<Vector3<f32>>() + mk::<Vector3<f64>>(); } // reject operator-precision
fn p8548() { let _: Vector3<f64> = &mk::<Vector3<f64>>() + &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8549() { let _ = &mk::<Vector3<f64>>() + &mk::<Vector3<f32>>(); } // reject operator-precision
fn p8550() { let _ = &mk::<Vector3<f32>>() + &mk::<Vector3<f64>>(); } // reject operator-precision
fn p8551() { let mut x = mk::<Vector3<f64>>(); x += mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p8552() { let mut x = mk::<Vector3<f64>>(); x += mk::<Vector3<f32>>(); } // reject operator-precision
fn p8553() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p8554() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Vector3<f32>>(); } // reject operator-precision
fn p8555() { let _: Vector3<f64> = mk::<Vector3<f64>>() - mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8556() { let _ = mk::<Vector3<f64>>() - mk::<Vector3<f32>>(); } // reject operator-precision
fn p8557() { let _ = mk::<Vector3<f32>>() - mk::<Vector3<f64>>(); } // reject operator-precision
fn p8558() { let _: Vector3<f64> = mk::<Vector3<f64>>() - &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8559() { let _ = mk::<Vector3<f64>>() - &mk::<Vector3<f32>>(); } // reject operator-precision
fn p8560() { let _ = mk::<Vector3<f32>>() - &mk::<Vector3<f64>>(); } // reject operator-precision
fn p8561() { let _: Vector3<f64> = &mk::<Vector3<f64>>() - mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8562() { let _ = &mk::<Vector3<f64>>() - mk::<Vector3<f32>>(); } // reject operator-precision
fn p8563() { let _ = &mk::<Vector3<f32>>() - mk::<Vector3<f64>>(); } // reject operator-precision
fn p8564() { let _: Vector3<f64> = &mk::<Vector3<f64>>() - &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p8565() { let _ = &mk::<Vector3<f64>>() - &mk::<Vector3<f32>>(); } // reject operator-precision
fn p8566() { let _ = &mk::<Vector3<f32>>() - &mk::<Vector3<f64>>(); } // reject operator-precision
fn p8567() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p8568() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Vector3<f32>>(); } // reject operator-precision
fn p8569() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p8570() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Vector3<f32>>(); } // reject operator-precision
fn p8571() { let _ = mk::<Vector3<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8572() { let _ = mk::<Vector3<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8573() { let _ = &mk::<Vector3<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8574() { let _ = &mk::<Vector3<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8575() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p8576() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p8577() { let _ = mk::<Vector3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8578() { let _ = mk::<Vector3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8579() { let _ = &mk::<Vector3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8580() { let _ = &mk::<Vector3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8581() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p8582() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p8583() { let _ = mk::<Vector3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8584() { let _ = mk::<Vector3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8585() { let _ = &mk::<Vector3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8586() { let _ = &mk::<Vector3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p8587() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p8588() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p8589() { let _ = mk::<Vector3<f64>>() == mk::<Vector3<f64>>(); } // accept equality-kinds
fn p8590() { let _: Vector3<f64> = mk::<Vector3<f64>>(); } // accept no-implicit-conversion
fn p8591() { let _: Vector3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8592() { let _ = mk::<Vector3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8593() { let _ = mk::<Vector3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8594() { let _ = &mk::<Vector3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8595() { let _ = &mk::<Vector3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8596() { let mut x = mk::<Vector3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8597() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8598() { let _ = mk::<Vector3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8599() { let _ = mk::<Vector3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8600() { let _ = &mk::<Vector3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8601() { let _ = &mk::<Vector3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8602() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8603() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8604() { let _ = mk::<Vector3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8605() { let _ = mk::<Vector3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8606() { let _ = &mk::<Vector3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8607() { let _ = &mk::<Vector3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8608() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8609() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8610() { let _ = mk::<Vector3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8611() { let _ = mk::<Vector3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8612() { let _ = &mk::<Vector3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8613() { let _ = &mk::<Vector3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8614() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8615() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8616() { let _ = mk::<Vector3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8617() { let _ = mk::<Vector3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8618() { let _ = &mk::<Vector3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8619() { let _ = &mk::<Vector3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p8620() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8621() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p8622() { let _ = mk::<Vector3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p8623() { let _ = mk::<Vector3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p8624() { let _: Vector4<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8625() { let _: Vector4<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8626() { let _ = mk::<Vector3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p8627() { let _ = mk::<Vector3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8628() { let _ = &mk::<Vector3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p8629() { let _ = &mk::<Vector3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8630() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8631() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8632() { let _ = mk::<Vector3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p8633() { let _ = mk::<Vector3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8634() { let _ = &mk::<Vector3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p8635() { let _ = &mk::<Vector3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8636() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8637() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8638() { let _ = mk::<Vector3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p8639() { let _ = mk::<Vector3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8640() { let _ = &mk::<Vector3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p8641() { let _ = &mk::<Vector3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8642() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8643() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8644() { let _ = mk::<Vector3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p8645() { let _ = mk::<Vector3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8646() { let _ = &mk::<Vector3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p8647() { let _ = &mk::<Vector3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p8648() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8649() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p8650() { let _ = mk::<Vector3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p8651() { let _ = mk::<Vector3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p8652() { let _: Point3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8653() { let _: Point3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8654() { let _ = mk::<Vector3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8655() { let _ = mk::<Vector3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8656() { let _ = &mk::<Vector3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8657() { let _ = &mk::<Vector3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8658() { let mut x = mk::<Vector3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8659() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8660() { let _ = mk::<Vector3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8661() { let _ = mk::<Vector3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8662() { let _ = &mk::<Vector3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8663() { let _ = &mk::<Vector3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8664() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8665() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8666() { let _ = mk::<Vector3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8667() { let _ = mk::<Vector3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8668() { let _ = &mk::<Vector3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8669() { let _ = &mk::<Vector3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8670() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8671() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8672() { let _ = mk::<Vector3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8673() { let _ = mk::<Vector3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8674() { let _ = &mk::<Vector3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8675() { let _ = &mk::<Vector3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8676() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8677() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8678() { let _ = mk::<Vector3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8679() { let _ = mk::<Vector3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8680() { let _ = &mk::<Vector3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8681() { let _ = &mk::<Vector3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p8682() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8683() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p8684() { let _ = mk::<Vector3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p8685() { let _ = mk::<Vector3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p8686() { let _: Matrix3x3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8687() { let _: Matrix3x3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8688() { let _ = mk::<Vector3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8689() { let _ = mk::<Vector3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8690() { let _ = &mk::<Vector3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8691() { let _ = &mk::<Vector3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8692() { let mut x = mk::<Vector3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8693() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8694() { let _ = mk::<Vector3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8695() { let _ = mk::<Vector3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8696() { let _ = &mk::<Vector3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8697() { let _ = &mk::<Vector3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8698() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8699() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8700() { let _ = mk::<Vector3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8701() { let _ = mk::<Vector3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8702() { let _ = &mk::<Vector3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8703() { let _ = &mk::<Vector3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8704() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8705() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8706() { let _ = mk::<Vector3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8707() { let _ = mk::<Vector3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8708() { let _ = &mk::<Vector3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8709() { let _ = &mk::<Vector3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8710() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8711() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8712() { let _ = mk::<Vector3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8713() { let _ = mk::<Vector3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8714() { let _ = &mk::<Vector3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8715() { let _ = &mk::<Vector3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p8716() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8717() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p8718() { let _ = mk::<Vector3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p8719() { let _ = mk::<Vector3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p8720() { let _: Matrix4x4<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8721() { let _: Matrix4x4<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8722() { let _ = mk::<Vector3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8723() { let _ = mk::<Vector3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8724() { let _ = &mk::<Vector3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8725() { let _ = &mk::<Vector3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8726() { let mut x = mk::<Vector3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8727() { let mut x = mk::<Vector3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8728() { let _ = mk::<Vector3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8729() { let _ = mk::<Vector3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8730() { let _ = &mk::<Vector3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8731() { let _ = &mk::<Vector3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8732() { let mut x = mk::<Vector3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8733() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8734() { let _ = mk::<Vector3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8735() { let _ = mk::<Vector3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8736() { let _ = &mk::<Vector3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8737() { let _ = &mk::<Vector3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8738() { let mut x = mk::<Vector3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8739() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8740() { let _ = mk::<Vector3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8741() { let _ = mk::<Vector3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8742() { let _ = &mk::<Vector3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8743() { let _ = &mk::<Vector3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8744() { let mut x = mk::<Vector3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8745() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8746() { let _ = mk::<Vector3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8747() { let _ = mk::<Vector3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8748() { let _ = &mk::<Vector3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8749() { let _ = &mk::<Vector3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p8750() { let mut x = mk::<Vector3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8751() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p8752() { let _ = mk::<Vector3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p8753() { let _ = mk::<Vector3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p8754() { let _: RowVector3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8755() { let _: RowVector3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8756() { let _ = mk::<Vector3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8757() { let _ = mk::<Vector3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8758() { let _ = &mk::<Vector3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8759() { let _ = &mk::<Vector3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8760() { let mut x = mk::<Vector3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8761() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8762() { let _ = mk::<Vector3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8763() { let _ = mk::<Vector3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8764() { let _ = &mk::<Vector3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8765() { let _ = &mk::<Vector3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8766() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8767() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8768() { let _ = mk::<Vector3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8769() { let _ = mk::<Vector3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8770() { let _ = &mk::<Vector3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8771() { let _ = &mk::<Vector3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8772() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8773() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8774() { let _ = mk::<Vector3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8775() { let _ = mk::<Vector3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8776() { let _ = &mk::<Vector3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8777() { let _ = &mk::<Vector3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8778() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8779() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8780() { let _ = mk::<Vector3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8781() { let _ = mk::<Vector3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8782() { let _ = &mk::<Vector3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8783() { let _ = &mk::<Vector3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p8784() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8785() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p8786() { let _ = mk::<Vector3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p8787() { let _ = mk::<Vector3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p8788() { let _: Quaternion<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8789() { let _: Quaternion<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8790() { let _ = mk::<Vector3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p8791() { let _ = mk::<Vector3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8792() { let _ = &mk::<Vector3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p8793() { let _ = &mk::<Vector3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8794() { let mut x = mk::<Vector3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8795() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8796() { let _ = mk::<Vector3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p8797() { let _ = mk::<Vector3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8798() { let _ = &mk::<Vector3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p8799() { let _ = &mk::<Vector3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8800() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8801() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8802() { let _ = mk::<Vector3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p8803() { let _ = mk::<Vector3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8804() { let _ = &mk::<Vector3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p8805() { let _ = &mk::<Vector3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8806() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8807() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8808() { let _ = mk::<Vector3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p8809() { let _ = mk::<Vector3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8810() { let _ = &mk::<Vector3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p8811() { let _ = &mk::<Vector3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8812() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8813() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8814() { let _ = mk::<Vector3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p8815() { let _ = mk::<Vector3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8816() { let _ = &mk::<Vector3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p8817() { let _ = &mk::<Vector3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p8818() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8819() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p8820() { let _ = mk::<Vector3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p8821() { let _ = mk::<Vector3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p8822() { let _: Complex<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8823() { let _: Complex<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8824() { let _ = mk::<Vector3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p8825() { let _ = mk::<Vector3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8826() { let _ = &mk::<Vector3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p8827() { let _ = &mk::<Vector3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8828() { let mut x = mk::<Vector3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8829() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8830() { let _ = mk::<Vector3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p8831() { let _ = mk::<Vector3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8832() { let _ = &mk::<Vector3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p8833() { let _ = &mk::<Vector3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8834() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8835() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8836() { let _ = mk::<Vector3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p8837() { let _ = mk::<Vector3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8838() { let _ = &mk::<Vector3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p8839() { let _ = &mk::<Vector3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8840() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8841() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8842() { let _ = mk::<Vector3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p8843() { let _ = mk::<Vector3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8844() { let _ = &mk::<Vector3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p8845() { let _ = &mk::<Vector3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8846() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8847() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8848() { let _ = mk::<Vector3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p8849() { let _ = mk::<Vector3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8850() { let _ = &mk::<Vector3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p8851() { let _ = &mk::<Vector3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p8852() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8853() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p8854() { let _ = mk::<Vector3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p8855() { let _ = mk::<Vector3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p8856() { let _: Radians<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8857() { let _: Radians<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8858() { let _ = mk::<Vector3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8859() { let _ = mk::<Vector3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8860() { let _ = &mk::<Vector3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8861() { let _ = &mk::<Vector3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8862() { let mut x = mk::<Vector3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8863() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8864() { let _ = mk::<Vector3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8865() { let _ = mk::<Vector3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8866() { let _ = &mk::<Vector3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8867() { let _ = &mk::<Vector3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8868() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8869() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8870() { let _ = mk::<Vector3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8871() { let _ = mk::<Vector3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8872() { let _ = &mk::<Vector3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8873() { let _ = &mk::<Vector3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8874() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8875() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8876() { let _ = mk::<Vector3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8877() { let _ = mk::<Vector3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8878() { let _ = &mk::<Vector3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8879() { let _ = &mk::<Vector3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8880() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8881() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8882() { let _ = mk::<Vector3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8883() { let _ = mk::<Vector3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8884() { let _ = &mk::<Vector3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8885() { let _ = &mk::<Vector3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p8886() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8887() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p8888() { let _ = mk::<Vector3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p8889() { let _ = mk::<Vector3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p8890() { let _: Degrees<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8891() { let _: Degrees<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8892() { let _ = mk::<Vector3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p8893() { let _ = mk::<Vector3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p8894() { let _ = &mk::<Vector3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p8895() { let _ = &mk::<Vector3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p8896() { let mut x = mk::<Vector3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p8897() { let mut x = mk::<Vector3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p8898() { let _ = mk::<Vector3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p8899() { let _ = mk::<Vector3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p8900() { let _ = &mk::<Vector3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p8901() { let _ = &mk::<Vector3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p8902() { let mut x = mk::<Vector3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p8903() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p8904() { let _: Vector3<f64> = mk::<Vector3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p8905() { let _ = mk::<Vector3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p8906() { let _ = mk::<Vector3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p8907() { let _: Vector3<f64> = &mk::<Vector3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p8908() { let _ = &mk::<Vector3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p8909() { let _ = &mk::<Vector3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p8910() { let mut x = mk::<Vector3<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p8911() { let mut x = mk::<Vector3<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p8912() { let _: Vector3<f64> = mk::<Vector3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p8913() { let _ = mk::<Vector3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p8914() { let _ = mk::<Vector3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p8915() { let _: Vector3<f64> = &mk::<Vector3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p8916() { let _ = &mk::<Vector3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p8917() { let _ = &mk::<Vector3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p8918() { let mut x = mk::<Vector3<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p8919() { let mut x = mk::<Vector3<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p8920() { let _: Vector3<f64> = mk::<Vector3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p8921() { let _ = mk::<Vector3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p8922() { let _ = mk::<Vector3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p8923() { let _: Vector3<f64> = &mk::<Vector3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p8924() { let _ = &mk::<Vector3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p8925() { let _ = &mk::<Vector3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p8926() { let mut x = mk::<Vector3<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p8927() { let mut x = mk::<Vector3<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p8928() { let _ = mk::<Vector3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p8929() { let _ = mk::<Vector3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p8930() { let _: f64 = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8931() { let _: f32 = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8932() { let _ = mk::<Vector3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8933() { let _ = mk::<Vector3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8934() { let _ = &mk::<Vector3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8935() { let _ = &mk::<Vector3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8936() { let mut x = mk::<Vector3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8937() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8938() { let _ = mk::<Vector3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8939() { let _ = mk::<Vector3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8940() { let _ = &mk::<Vector3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8941() { let _ = &mk::<Vector3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8942() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8943() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8944() { let _ = mk::<Vector3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8945() { let _ = mk::<Vector3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8946() { let _ = &mk::<Vector3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8947() { let _ = &mk::<Vector3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8948() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8949() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8950() { let _ = mk::<Vector3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8951() { let _ = mk::<Vector3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8952() { let _ = &mk::<Vector3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8953() { let _ = &mk::<Vector3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8954() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8955() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8956() { let _ = mk::<Vector3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8957() { let _ = mk::<Vector3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8958() { let _ = &mk::<Vector3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8959() { let _ = &mk::<Vector3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p8960() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8961() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p8962() { let _ = mk::<Vector3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p8963() { let _ = mk::<Vector3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p8964() { let _: Euler<Radians<f64>> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8965() { let _: Euler<Radians<f32>> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8966() { let _ = mk::<Vector3<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8967() { let _ = mk::<Vector3<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8968() { let _ = &mk::<Vector3<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8969() { let _ = &mk::<Vector3<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8970() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p8971() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p8972() { let _ = mk::<Vector3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8973() { let _ = mk::<Vector3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8974() { let _ = &mk::<Vector3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8975() { let _ = &mk::<Vector3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8976() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p8977() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p8978() { let _ = mk::<Vector3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8979() { let _ = mk::<Vector3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8980() { let _ = &mk::<Vector3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8981() { let _ = &mk::<Vector3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p8982() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p8983() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p8984() { let _ = mk::<Vector3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p8985() { let _: Unit<Vector3<f64>> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8986() { let _: Unit<Vector3<f32>> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p8987() { let _ = mk::<Vector3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8988() { let _ = mk::<Vector3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8989() { let _ = &mk::<Vector3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8990() { let _ = &mk::<Vector3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8991() { let mut x = mk::<Vector3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p8992() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p8993() { let _ = mk::<Vector3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8994() { let _ = mk::<Vector3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8995() { let _ = &mk::<Vector3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8996() { let _ = &mk::<Vector3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p8997() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p8998() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p8999() { let _ = mk::<Vector3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9000() { let _ = mk::<Vector3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9001() { let _ = &mk::<Vector3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9002() { let _ = &mk::<Vector3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9003() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9004() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9005() { let _ = mk::<Vector3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9006() { let _ = mk::<Vector3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9007() { let _ = &mk::<Vector3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9008() { let _ = &mk::<Vector3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9009() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9010() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9011() { let _ = mk::<Vector3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9012() { let _ = mk::<Vector3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9013() { let _ = &mk::<Vector3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9014() { let _ = &mk::<Vector3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9015() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9016() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9017() { let _ = mk::<Vector3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p9018() { let _ = mk::<Vector3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p9019() { let _: Unit<Quaternion<f64>> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9020() { let _: Unit<Quaternion<f32>> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9021() { let _ = mk::<Vector3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9022() { let _ = mk::<Vector3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9023() { let _ = &mk::<Vector3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9024() { let _ = &mk::<Vector3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9025() { let mut x = mk::<Vector3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9026() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9027() { let _ = mk::<Vector3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9028() { let _ = mk::<Vector3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9029() { let _ = &mk::<Vector3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9030() { let _ = &mk::<Vector3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9031() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9032() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9033() { let _ = mk::<Vector3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9034() { let _ = mk::<Vector3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9035() { let _ = &mk::<Vector3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9036() { let _ = &mk::<Vector3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9037() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9038() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9039() { let _ = mk::<Vector3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9040() { let _ = mk::<Vector3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9041() { let _ = &mk::<Vector3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9042() { let _ = &mk::<Vector3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9043() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9044() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9045() { let _ = mk::<Vector3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9046() { let _ = mk::<Vector3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9047() { let _ = &mk::<Vector3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9048() { let _ = &mk::<Vector3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9049() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9050() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9051() { let _ = mk::<Vector3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p9052() { let _ = mk::<Vector3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p9053() { let _: Rotation3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9054() { let _: Rotation3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9055() { let _ = mk::<Vector3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9056() { let _ = mk::<Vector3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9057() { let _ = &mk::<Vector3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9058() { let _ = &mk::<Vector3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9059() { let mut x = mk::<Vector3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9060() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9061() { let _ = mk::<Vector3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9062() { let _ = mk::<Vector3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9063() { let _ = &mk::<Vector3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9064() { let _ = &mk::<Vector3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9065() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9066() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9067() { let _ = mk::<Vector3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9068() { let _ = mk::<Vector3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9069() { let _ = &mk::<Vector3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9070() { let _ = &mk::<Vector3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9071() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9072() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9073() { let _ = mk::<Vector3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9074() { let _ = mk::<Vector3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9075() { let _ = &mk::<Vector3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9076() { let _ = &mk::<Vector3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9077() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9078() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9079() { let _ = mk::<Vector3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9080() { let _ = mk::<Vector3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9081() { let _ = &mk::<Vector3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9082() { let _ = &mk::<Vector3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9083() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9084() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9085() { let _ = mk::<Vector3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p9086() { let _ = mk::<Vector3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p9087() { let _: Translation3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9088() { let _: Translation3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9089() { let _ = mk::<Vector3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9090() { let _ = mk::<Vector3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9091() { let _ = &mk::<Vector3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9092() { let _ = &mk::<Vector3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9093() { let mut x = mk::<Vector3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9094() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9095() { let _ = mk::<Vector3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9096() { let _ = mk::<Vector3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9097() { let _ = &mk::<Vector3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9098() { let _ = &mk::<Vector3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9099() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9100() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9101() { let _ = mk::<Vector3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9102() { let _ = mk::<Vector3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9103() { let _ = &mk::<Vector3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9104() { let _ = &mk::<Vector3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9105() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9106() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9107() { let _ = mk::<Vector3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9108() { let _ = mk::<Vector3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9109() { let _ = &mk::<Vector3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9110() { let _ = &mk::<Vector3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9111() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9112() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9113() { let _ = mk::<Vector3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9114() { let _ = mk::<Vector3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9115() { let _ = &mk::<Vector3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9116() { let _ = &mk::<Vector3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9117() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9118() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9119() { let _ = mk::<Vector3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p9120() { let _ = mk::<Vector3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p9121() { let _: Scale3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9122() { let _: Scale3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9123() { let _ = mk::<Vector3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9124() { let _ = mk::<Vector3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9125() { let _ = &mk::<Vector3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9126() { let _ = &mk::<Vector3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9127() { let mut x = mk::<Vector3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9128() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9129() { let _ = mk::<Vector3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9130() { let _ = mk::<Vector3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9131() { let _ = &mk::<Vector3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9132() { let _ = &mk::<Vector3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9133() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9134() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9135() { let _ = mk::<Vector3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9136() { let _ = mk::<Vector3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9137() { let _ = &mk::<Vector3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9138() { let _ = &mk::<Vector3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9139() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9140() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9141() { let _ = mk::<Vector3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9142() { let _ = mk::<Vector3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9143() { let _ = &mk::<Vector3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9144() { let _ = &mk::<Vector3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9145() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9146() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9147() { let _ = mk::<Vector3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9148() { let _ = mk::<Vector3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9149() { let _ = &mk::<Vector3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9150() { let _ = &mk::<Vector3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9151() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9152() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9153() { let _ = mk::<Vector3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p9154() { let _ = mk::<Vector3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p9155() { let _: Shear3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9156() { let _: Shear3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9157() { let _ = mk::<Vector3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9158() { let _ = mk::<Vector3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9159() { let _ = &mk::<Vector3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9160() { let _ = &mk::<Vector3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9161() { let mut x = mk::<Vector3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9162() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9163() { let _ = mk::<Vector3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9164() { let _ = mk::<Vector3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9165() { let _ = &mk::<Vector3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9166() { let _ = &mk::<Vector3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9167() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9168() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9169() { let _ = mk::<Vector3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9170() { let _ = mk::<Vector3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9171() { let _ = &mk::<Vector3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9172() { let _ = &mk::<Vector3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9173() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9174() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9175() { let _ = mk::<Vector3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9176() { let _ = mk::<Vector3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9177() { let _ = &mk::<Vector3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9178() { let _ = &mk::<Vector3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9179() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9180() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9181() { let _ = mk::<Vector3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9182() { let _ = mk::<Vector3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9183() { let _ = &mk::<Vector3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9184() { let _ = &mk::<Vector3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p9185() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9186() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p9187() { let _ = mk::<Vector3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p9188() { let _ = mk::<Vector3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p9189() { let _: Reflection3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9190() { let _: Reflection3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9191() { let _ = mk::<Vector3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9192() { let _ = mk::<Vector3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9193() { let _ = &mk::<Vector3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9194() { let _ = &mk::<Vector3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9195() { let mut x = mk::<Vector3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9196() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9197() { let _ = mk::<Vector3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9198() { let _ = mk::<Vector3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9199() { let _ = &mk::<Vector3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9200() { let _ = &mk::<Vector3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9201() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9202() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9203() { let _ = mk::<Vector3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9204() { let _ = mk::<Vector3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9205() { let _ = &mk::<Vector3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9206() { let _ = &mk::<Vector3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9207() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9208() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9209() { let _ = mk::<Vector3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9210() { let _ = mk::<Vector3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9211() { let _ = &mk::<Vector3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9212() { let _ = &mk::<Vector3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9213() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9214() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9215() { let _ = mk::<Vector3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9216() { let _ = mk::<Vector3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9217() { let _ = &mk::<Vector3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9218() { let _ = &mk::<Vector3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p9219() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9220() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p9221() { let _ = mk::<Vector3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p9222() { let _ = mk::<Vector3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p9223() { let _: Isometry3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9224() { let _: Isometry3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9225() { let _ = mk::<Vector3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9226() { let _ = mk::<Vector3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9227() { let _ = &mk::<Vector3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9228() { let _ = &mk::<Vector3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9229() { let mut x = mk::<Vector3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9230() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9231() { let _ = mk::<Vector3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9232() { let _ = mk::<Vector3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9233() { let _ = &mk::<Vector3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9234() { let _ = &mk::<Vector3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9235() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9236() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9237() { let _ = mk::<Vector3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9238() { let _ = mk::<Vector3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9239() { let _ = &mk::<Vector3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9240() { let _ = &mk::<Vector3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9241() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9242() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9243() { let _ = mk::<Vector3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9244() { let _ = mk::<Vector3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9245() { let _ = &mk::<Vector3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9246() { let _ = &mk::<Vector3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9247() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9248() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9249() { let _ = mk::<Vector3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9250() { let _ = mk::<Vector3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9251() { let _ = &mk::<Vector3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9252() { let _ = &mk::<Vector3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p9253() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9254() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p9255() { let _ = mk::<Vector3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p9256() { let _ = mk::<Vector3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p9257() { let _: Similarity3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9258() { let _: Similarity3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9259() { let _ = mk::<Vector3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9260() { let _ = mk::<Vector3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9261() { let _ = &mk::<Vector3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9262() { let _ = &mk::<Vector3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9263() { let mut x = mk::<Vector3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9264() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9265() { let _ = mk::<Vector3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9266() { let _ = mk::<Vector3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9267() { let _ = &mk::<Vector3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9268() { let _ = &mk::<Vector3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9269() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9270() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9271() { let _ = mk::<Vector3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9272() { let _ = mk::<Vector3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9273() { let _ = &mk::<Vector3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9274() { let _ = &mk::<Vector3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9275() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9276() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9277() { let _ = mk::<Vector3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9278() { let _ = mk::<Vector3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9279() { let _ = &mk::<Vector3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9280() { let _ = &mk::<Vector3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9281() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9282() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9283() { let _ = mk::<Vector3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9284() { let _ = mk::<Vector3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9285() { let _ = &mk::<Vector3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9286() { let _ = &mk::<Vector3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p9287() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9288() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p9289() { let _ = mk::<Vector3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p9290() { let _ = mk::<Vector3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p9291() { let _: Transform3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9292() { let _: Transform3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9293() { let _ = mk::<Vector3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9294() { let _ = mk::<Vector3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9295() { let _ = &mk::<Vector3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9296() { let _ = &mk::<Vector3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9297() { let mut x = mk::<Vector3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9298() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9299() { let _ = mk::<Vector3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9300() { let _ = mk::<Vector3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9301() { let _ = &mk::<Vector3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9302() { let _ = &mk::<Vector3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9303() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9304() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9305() { let _ = mk::<Vector3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9306() { let _ = mk::<Vector3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9307() { let _ = &mk::<Vector3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9308() { let _ = &mk::<Vector3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9309() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9310() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9311() { let _ = mk::<Vector3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9312() { let _ = mk::<Vector3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9313() { let _ = &mk::<Vector3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9314() { let _ = &mk::<Vector3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9315() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9316() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9317() { let _ = mk::<Vector3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9318() { let _ = mk::<Vector3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9319() { let _ = &mk::<Vector3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9320() { let _ = &mk::<Vector3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p9321() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9322() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p9323() { let _ = mk::<Vector3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p9324() { let _ = mk::<Vector3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p9325() { let _: Perspective3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9326() { let _: Perspective3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9327() { let _ = mk::<Vector3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9328() { let _ = mk::<Vector3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9329() { let _ = &mk::<Vector3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9330() { let _ = &mk::<Vector3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9331() { let mut x = mk::<Vector3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9332() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9333() { let _ = mk::<Vector3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9334() { let _ = mk::<Vector3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9335() { let _ = &mk::<Vector3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9336() { let _ = &mk::<Vector3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9337() { let mut x = mk::<Vector3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9338() { let mut x = mk::<Vector3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9339() { let _ = mk::<Vector3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9340() { let _ = mk::<Vector3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9341() { let _ = &mk::<Vector3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9342() { let _ = &mk::<Vector3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9343() { let mut x = mk::<Vector3<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9344() { let mut x = mk::<Vector3<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9345() { let _ = mk::<Vector3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9346() { let _ = mk::<Vector3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9347() { let _ = &mk::<Vector3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9348() { let _ = &mk::<Vector3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9349() { let mut x = mk::<Vector3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9350() { let mut x = mk::<Vector3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9351() { let _ = mk::<Vector3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9352() { let _ = mk::<Vector3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9353() { let _ = &mk::<Vector3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9354() { let _ = &mk::<Vector3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p9355() { let mut x = mk::<Vector3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9356() { let mut x = mk::<Vector3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p9357() { let _ = mk::<Vector3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p9358() { let _ = mk::<Vector3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p9359() { let _: Orthographic3<f64> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9360() { let _: Orthographic3<f32> = mk::<Vector3<f64>>(); } // reject no-implicit-conversion
fn p9361() { let _: Vector3<f64> = -mk::<Vector3<f64>>(); } // accept negation
fn p9362() { let _: Vector3<f64> = -&mk::<Vector3<f64>>(); } // accept negation
fn p9363() { let _ = !mk::<Vector3<f64>>(); } // reject negation
fn p9364() { let _ = !&mk::<Vector3<f64>>(); } // reject negation
fn p9365() { let _ = mk::<Vector4<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9366() { let _ = mk::<Vector4<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9367() { let _ = &mk::<Vector4<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9368() { let _ = &mk::<Vector4<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9369() { let mut x = mk::<Vector4<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9370() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9371() { let _ = mk::<Vector4<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9372() { let _ = mk::<Vector4<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9373() { let _ = &mk::<Vector4<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9374() { let _ = &mk::<Vector4<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9375() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9376() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9377() { let _ = mk::<Vector4<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9378() { let _ = mk::<Vector4<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9379() { let _ = &mk::<Vector4<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9380() { let _ = &mk::<Vector4<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9381() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9382() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9383() { let _ = mk::<Vector4<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9384() { let _ = mk::<Vector4<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9385() { let _ = &mk::<Vector4<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9386() { let _ = &mk::<Vector4<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9387() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9388() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9389() { let _ = mk::<Vector4<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9390() { let _ = mk::<Vector4<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9391() { let _ = &mk::<Vector4<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9392() { let _ = &mk::<Vector4<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p9393() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9394() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p9395() { let _ = mk::<Vector4<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p9396() { let _ = mk::<Vector4<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p9397() { let _: Vector3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9398() { let _: Vector3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9399() { let _: Vector4<f64> = mk::<Vector4<f64>>() + mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9400() { let _ = mk::<Vector4<f64>>() + mk::<Vector4<f32>>(); } // reject operator-precision
fn p9401() { let _ = mk::<Vector4<f32>>() + mk::<Vector4<f64>>(); } // reject operator-precision
fn p9402() { let _: Vector4<f64> = mk::<Vector4<f64>>() + &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9403() { let _ = mk::<Vector4<f64>>() + &mk::<Vector4<f32>>(); } // reject operator-precision
fn p9404() { let _ = mk::<Vector4<f32>>() + &mk::<Vector4<f64>>(); } // reject operator-precision
fn p9405() { let _: Vector4<f64> = &mk::<Vector4<f64>>() + mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9406() { let _ = &mk::<Vector4<f64>>() + mk::<Vector4<f32>>(); } // reject operator-precision
fn p9407() { let _ = &mk::<Vector4<f32>>() + mk::<Vector4<f64>>(); } // reject operator-precision
fn p9408() { let _: Vector4<f64> = &mk::<Vector4<f64>>() + &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9409() { let _ = &mk::<Vector4<f64>>() + &mk::<Vector4<f32>>(); } // reject operator-precision
fn p9410() { let _ = &mk::<Vector4<f32>>() + &mk::<Vector4<f64>>(); } // reject operator-precision
fn p9411() { let mut x = mk::<Vector4<f64>>(); x += mk::<Vector4<f64>>(); } // accept assigning-kinds
fn p9412() { let mut x = mk::<Vector4<f64>>(); x += mk::<Vector4<f32>>(); } // reject operator-precision
fn p9413() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Vector4<f64>>(); } // accept assigning-kinds
fn p9414() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Vector4<f32>>(); } // reject operator-precision
fn p9415() { let _: Vector4<f64> = mk::<Vector4<f64>>() - mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9416() { let _ = mk::<Vector4<f64>>() - mk::<Vector4<f32>>(); } // reject operator-precision
fn p9417() { let _ = mk::<Vector4<f32>>() - mk::<Vector4<f64>>(); } // reject operator-precision
fn p9418() { let _: Vector4<f64> = mk::<Vector4<f64>>() - &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9419() { let _ = mk::<Vector4<f64>>() - &mk::<Vector4<f32>>(); } // reject operator-precision
fn p9420() { let _ = mk::<Vector4<f32>>() - &mk::<Vector4<f64>>(); } // reject operator-precision
fn p9421() { let _: Vector4<f64> = &mk::<Vector4<f64>>() - mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9422() { let _ = &mk::<Vector4<f64>>() - mk::<Vector4<f32>>(); } // reject operator-precision
fn p9423() { let _ = &mk::<Vector4<f32>>() - mk::<Vector4<f64>>(); } // reject operator-precision
fn p9424() { let _: Vector4<f64> = &mk::<Vector4<f64>>() - &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p9425() { let _ = &mk::<Vector4<f64>>() - &mk::<Vector4<f32>>(); } // reject operator-precision
fn p9426() { let _ = &mk::<Vector4<f32>>() - &mk::<Vector4<f64>>(); } // reject operator-precision
fn p9427() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Vector4<f64>>(); } // accept assigning-kinds
fn p9428() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Vector4<f32>>(); } // reject operator-precision
fn p9429() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Vector4<f64>>(); } // accept assigning-kinds
fn p9430() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Vector4<f32>>(); } // reject operator-precision
fn p9431() { let _ = mk::<Vector4<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9432() { let _ = mk::<Vector4<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9433() { let _ = &mk::<Vector4<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9434() { let _ = &mk::<Vector4<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9435() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p9436() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p9437() { let _ = mk::<Vector4<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9438() { let _ = mk::<Vector4<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9439() { let _ = &mk::<Vector4<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9440() { let _ = &mk::<Vector4<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9441() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p9442() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p9443() { let _ = mk::<Vector4<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9444() { let _ = mk::<Vector4<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9445() { let _ = &mk::<Vector4<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9446() { let _ = &mk::<Vector4<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p9447() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p9448() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p9449() { let _ = mk::<Vector4<f64>>() == mk::<Vector4<f64>>(); } // accept equality-kinds
fn p9450() { let _: Vector4<f64> = mk::<Vector4<f64>>(); } // accept no-implicit-conversion
fn p9451() { let _: Vector4<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9452() { let _ = mk::<Vector4<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p9453() { let _ = mk::<Vector4<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9454() { let _ = &mk::<Vector4<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p9455() { let _ = &mk::<Vector4<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9456() { let mut x = mk::<Vector4<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9457() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9458() { let _ = mk::<Vector4<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p9459() { let _ = mk::<Vector4<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9460() { let _ = &mk::<Vector4<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p9461() { let _ = &mk::<Vector4<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9462() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9463() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9464() { let _ = mk::<Vector4<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p9465() { let _ = mk::<Vector4<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9466() { let _ = &mk::<Vector4<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p9467() { let _ = &mk::<Vector4<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9468() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9469() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9470() { let _ = mk::<Vector4<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p9471() { let _ = mk::<Vector4<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9472() { let _ = &mk::<Vector4<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p9473() { let _ = &mk::<Vector4<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9474() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9475() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9476() { let _ = mk::<Vector4<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p9477() { let _ = mk::<Vector4<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9478() { let _ = &mk::<Vector4<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p9479() { let _ = &mk::<Vector4<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p9480() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9481() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p9482() { let _ = mk::<Vector4<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p9483() { let _ = mk::<Vector4<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p9484() { let _: Point3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9485() { let _: Point3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9486() { let _ = mk::<Vector4<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9487() { let _ = mk::<Vector4<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9488() { let _ = &mk::<Vector4<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9489() { let _ = &mk::<Vector4<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9490() { let mut x = mk::<Vector4<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9491() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9492() { let _ = mk::<Vector4<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9493() { let _ = mk::<Vector4<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9494() { let _ = &mk::<Vector4<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9495() { let _ = &mk::<Vector4<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9496() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9497() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9498() { let _ = mk::<Vector4<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9499() { let _ = mk::<Vector4<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9500() { let _ = &mk::<Vector4<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9501() { let _ = &mk::<Vector4<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9502() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9503() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9504() { let _ = mk::<Vector4<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9505() { let _ = mk::<Vector4<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9506() { let _ = &mk::<Vector4<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9507() { let _ = &mk::<Vector4<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9508() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9509() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9510() { let _ = mk::<Vector4<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9511() { let _ = mk::<Vector4<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9512() { let _ = &mk::<Vector4<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9513() { let _ = &mk::<Vector4<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p9514() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9515() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p9516() { let _ = mk::<Vector4<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p9517() { let _ = mk::<Vector4<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p9518() { let _: Matrix3x3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9519() { let _: Matrix3x3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9520() { let _ = mk::<Vector4<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9521() { let _ = mk::<Vector4<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9522() { let _ = &mk::<Vector4<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9523() { let _ = &mk::<Vector4<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9524() { let mut x = mk::<Vector4<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9525() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9526() { let _ = mk::<Vector4<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9527() { let _ = mk::<Vector4<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9528() { let _ = &mk::<Vector4<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9529() { let _ = &mk::<Vector4<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9530() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9531() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9532() { let _ = mk::<Vector4<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9533() { let _ = mk::<Vector4<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9534() { let _ = &mk::<Vector4<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9535() { let _ = &mk::<Vector4<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9536() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9537() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9538() { let _ = mk::<Vector4<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9539() { let _ = mk::<Vector4<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9540() { let _ = &mk::<Vector4<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9541() { let _ = &mk::<Vector4<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9542() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9543() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9544() { let _ = mk::<Vector4<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9545() { let _ = mk::<Vector4<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9546() { let _ = &mk::<Vector4<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9547() { let _ = &mk::<Vector4<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p9548() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9549() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p9550() { let _ = mk::<Vector4<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p9551() { let _ = mk::<Vector4<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p9552() { let _: Matrix4x4<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9553() { let _: Matrix4x4<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9554() { let _ = mk::<Vector4<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9555() { let _ = mk::<Vector4<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9556() { let _ = &mk::<Vector4<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9557() { let _ = &mk::<Vector4<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9558() { let mut x = mk::<Vector4<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9559() { let mut x = mk::<Vector4<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9560() { let _ = mk::<Vector4<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9561() { let _ = mk::<Vector4<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9562() { let _ = &mk::<Vector4<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9563() { let _ = &mk::<Vector4<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9564() { let mut x = mk::<Vector4<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9565() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9566() { let _ = mk::<Vector4<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9567() { let _ = mk::<Vector4<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9568() { let _ = &mk::<Vector4<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9569() { let _ = &mk::<Vector4<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9570() { let mut x = mk::<Vector4<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9571() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9572() { let _ = mk::<Vector4<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9573() { let _ = mk::<Vector4<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9574() { let _ = &mk::<Vector4<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9575() { let _ = &mk::<Vector4<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9576() { let mut x = mk::<Vector4<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9577() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9578() { let _ = mk::<Vector4<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9579() { let _ = mk::<Vector4<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9580() { let _ = &mk::<Vector4<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9581() { let _ = &mk::<Vector4<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p9582() { let mut x = mk::<Vector4<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9583() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p9584() { let _ = mk::<Vector4<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p9585() { let _ = mk::<Vector4<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p9586() { let _: RowVector3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9587() { let _: RowVector3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9588() { let _ = mk::<Vector4<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9589() { let _ = mk::<Vector4<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9590() { let _ = &mk::<Vector4<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9591() { let _ = &mk::<Vector4<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9592() { let mut x = mk::<Vector4<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9593() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9594() { let _ = mk::<Vector4<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9595() { let _ = mk::<Vector4<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9596() { let _ = &mk::<Vector4<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9597() { let _ = &mk::<Vector4<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9598() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9599() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9600() { let _ = mk::<Vector4<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9601() { let _ = mk::<Vector4<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9602() { let _ = &mk::<Vector4<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9603() { let _ = &mk::<Vector4<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9604() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9605() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9606() { let _ = mk::<Vector4<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9607() { let _ = mk::<Vector4<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9608() { let _ = &mk::<Vector4<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9609() { let _ = &mk::<Vector4<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9610() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9611() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9612() { let _ = mk::<Vector4<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9613() { let _ = mk::<Vector4<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9614() { let _ = &mk::<Vector4<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9615() { let _ = &mk::<Vector4<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p9616() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9617() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p9618() { let _ = mk::<Vector4<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p9619() { let _ = mk::<Vector4<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p9620() { let _: Quaternion<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9621() { let _: Quaternion<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9622() { let _ = mk::<Vector4<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p9623() { let _ = mk::<Vector4<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9624() { let _ = &mk::<Vector4<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p9625() { let _ = &mk::<Vector4<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9626() { let mut x = mk::<Vector4<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9627() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9628() { let _ = mk::<Vector4<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p9629() { let _ = mk::<Vector4<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9630() { let _ = &mk::<Vector4<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p9631() { let _ = &mk::<Vector4<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9632() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9633() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9634() { let _ = mk::<Vector4<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p9635() { let _ = mk::<Vector4<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9636() { let _ = &mk::<Vector4<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p9637() { let _ = &mk::<Vector4<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9638() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9639() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9640() { let _ = mk::<Vector4<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p9641() { let _ = mk::<Vector4<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9642() { let _ = &mk::<Vector4<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p9643() { let _ = &mk::<Vector4<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9644() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9645() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9646() { let _ = mk::<Vector4<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p9647() { let _ = mk::<Vector4<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9648() { let _ = &mk::<Vector4<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p9649() { let _ = &mk::<Vector4<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p9650() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9651() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p9652() { let _ = mk::<Vector4<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p9653() { let _ = mk::<Vector4<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p9654() { let _: Complex<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9655() { let _: Complex<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9656() { let _ = mk::<Vector4<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p9657() { let _ = mk::<Vector4<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9658() { let _ = &mk::<Vector4<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p9659() { let _ = &mk::<Vector4<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9660() { let mut x = mk::<Vector4<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9661() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9662() { let _ = mk::<Vector4<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p9663() { let _ = mk::<Vector4<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9664() { let _ = &mk::<Vector4<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p9665() { let _ = &mk::<Vector4<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9666() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9667() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9668() { let _ = mk::<Vector4<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p9669() { let _ = mk::<Vector4<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9670() { let _ = &mk::<Vector4<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p9671() { let _ = &mk::<Vector4<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9672() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9673() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9674() { let _ = mk::<Vector4<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p9675() { let _ = mk::<Vector4<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9676() { let _ = &mk::<Vector4<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p9677() { let _ = &mk::<Vector4<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9678() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9679() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9680() { let _ = mk::<Vector4<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p9681() { let _ = mk::<Vector4<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9682() { let _ = &mk::<Vector4<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p9683() { let _ = &mk::<Vector4<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p9684() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9685() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p9686() { let _ = mk::<Vector4<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p9687() { let _ = mk::<Vector4<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p9688() { let _: Radians<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9689() { let _: Radians<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9690() { let _ = mk::<Vector4<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9691() { let _ = mk::<Vector4<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9692() { let _ = &mk::<Vector4<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9693() { let _ = &mk::<Vector4<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9694() { let mut x = mk::<Vector4<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9695() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9696() { let _ = mk::<Vector4<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9697() { let _ = mk::<Vector4<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9698() { let _ = &mk::<Vector4<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9699() { let _ = &mk::<Vector4<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9700() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9701() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9702() { let _ = mk::<Vector4<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9703() { let _ = mk::<Vector4<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9704() { let _ = &mk::<Vector4<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9705() { let _ = &mk::<Vector4<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9706() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9707() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9708() { let _ = mk::<Vector4<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9709() { let _ = mk::<Vector4<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9710() { let _ = &mk::<Vector4<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9711() { let _ = &mk::<Vector4<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9712() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9713() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9714() { let _ = mk::<Vector4<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9715() { let _ = mk::<Vector4<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9716() { let _ = &mk::<Vector4<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9717() { let _ = &mk::<Vector4<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p9718() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9719() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p9720() { let _ = mk::<Vector4<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p9721() { let _ = mk::<Vector4<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p9722() { let _: Degrees<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9723() { let _: Degrees<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9724() { let _ = mk::<Vector4<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p9725() { let _ = mk::<Vector4<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p9726() { let _ = &mk::<Vector4<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p9727() { let _ = &mk::<Vector4<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p9728() { let mut x = mk::<Vector4<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p9729() { let mut x = mk::<Vector4<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p9730() { let _ = mk::<Vector4<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p9731() { let _ = mk::<Vector4<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p9732() { let _ = &mk::<Vector4<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p9733() { let _ = &mk::<Vector4<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p9734() { let mut x = mk::<Vector4<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p9735() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p9736() { let _: Vector4<f64> = mk::<Vector4<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p9737() { let _ = mk::<Vector4<f64>>() * mk::<f32>(); } // reject operator-precision
fn p9738() { let _ = mk::<Vector4<f32>>() * mk::<f64>(); } // reject operator-precision
fn p9739() { let _: Vector4<f64> = &mk::<Vector4<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p9740() { let _ = &mk::<Vector4<f64>>() * mk::<f32>(); } // reject operator-precision
fn p9741() { let _ = &mk::<Vector4<f32>>() * mk::<f64>(); } // reject operator-precision
fn p9742() { let mut x = mk::<Vector4<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p9743() { let mut x = mk::<Vector4<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p9744() { let _: Vector4<f64> = mk::<Vector4<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p9745() { let _ = mk::<Vector4<f64>>() / mk::<f32>(); } // reject operator-precision
fn p9746() { let _ = mk::<Vector4<f32>>() / mk::<f64>(); } // reject operator-precision
fn p9747() { let _: Vector4<f64> = &mk::<Vector4<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p9748() { let _ = &mk::<Vector4<f64>>() / mk::<f32>(); } // reject operator-precision
fn p9749() { let _ = &mk::<Vector4<f32>>() / mk::<f64>(); } // reject operator-precision
fn p9750() { let mut x = mk::<Vector4<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p9751() { let mut x = mk::<Vector4<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p9752() { let _: Vector4<f64> = mk::<Vector4<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p9753() { let _ = mk::<Vector4<f64>>() % mk::<f32>(); } // reject operator-precision
fn p9754() { let _ = mk::<Vector4<f32>>() % mk::<f64>(); } // reject operator-precision
fn p9755() { let _: Vector4<f64> = &mk::<Vector4<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p9756() { let _ = &mk::<Vector4<f64>>() % mk::<f32>(); } // reject operator-precision
fn p9757() { let _ = &mk::<Vector4<f32>>() % mk::<f64>(); } // reject operator-precision
fn p9758() { let mut x = mk::<Vector4<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p9759() { let mut x = mk::<Vector4<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p9760() { let _ = mk::<Vector4<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p9761() { let _ = mk::<Vector4<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p9762() { let _: f64 = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9763() { let _: f32 = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9764() { let _ = mk::<Vector4<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9765() { let _ = mk::<Vector4<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9766() { let _ = &mk::<Vector4<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9767() { let _ = &mk::<Vector4<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9768() { let mut x = mk::<Vector4<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9769() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9770() { let _ = mk::<Vector4<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9771() { let _ = mk::<Vector4<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9772() { let _ = &mk::<Vector4<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9773() { let _ = &mk::<Vector4<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9774() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9775() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9776() { let _ = mk::<Vector4<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9777() { let _ = mk::<Vector4<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9778() { let _ = &mk::<Vector4<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9779() { let _ = &mk::<Vector4<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9780() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9781() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9782() { let _ = mk::<Vector4<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9783() { let _ = mk::<Vector4<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9784() { let _ = &mk::<Vector4<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9785() { let _ = &mk::<Vector4<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9786() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9787() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9788() { let _ = mk::<Vector4<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9789() { let _ = mk::<Vector4<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9790() { let _ = &mk::<Vector4<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9791() { let _ = &mk::<Vector4<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p9792() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9793() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p9794() { let _ = mk::<Vector4<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p9795() { let _ = mk::<Vector4<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p9796() { let _: Euler<Radians<f64>> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9797() { let _: Euler<Radians<f32>> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9798() { let _ = mk::<Vector4<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9799() { let _ = mk::<Vector4<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9800() { let _ = &mk::<Vector4<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9801() { let _ = &mk::<Vector4<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9802() { let mut x = mk::<Vector4<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9803() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9804() { let _ = mk::<Vector4<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9805() { let _ = mk::<Vector4<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9806() { let _ = &mk::<Vector4<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9807() { let _ = &mk::<Vector4<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9808() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9809() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9810() { let _ = mk::<Vector4<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9811() { let _ = mk::<Vector4<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9812() { let _ = &mk::<Vector4<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9813() { let _ = &mk::<Vector4<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9814() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9815() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9816() { let _ = mk::<Vector4<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9817() { let _ = mk::<Vector4<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9818() { let _ = &mk::<Vector4<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9819() { let _ = &mk::<Vector4<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9820() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9821() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9822() { let _ = mk::<Vector4<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9823() { let _ = mk::<Vector4<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9824() { let _ = &mk::<Vector4<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9825() { let _ = &mk::<Vector4<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p9826() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9827() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p9828() { let _ = mk::<Vector4<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p9829() { let _ = mk::<Vector4<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p9830() { let _: Unit<Vector3<f64>> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9831() { let _: Unit<Vector3<f32>> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9832() { let _ = mk::<Vector4<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9833() { let _ = mk::<Vector4<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9834() { let _ = &mk::<Vector4<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9835() { let _ = &mk::<Vector4<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9836() { let mut x = mk::<Vector4<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9837() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9838() { let _ = mk::<Vector4<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9839() { let _ = mk::<Vector4<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9840() { let _ = &mk::<Vector4<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9841() { let _ = &mk::<Vector4<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9842() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9843() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9844() { let _ = mk::<Vector4<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9845() { let _ = mk::<Vector4<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9846() { let _ = &mk::<Vector4<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9847() { let _ = &mk::<Vector4<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9848() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9849() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9850() { let _ = mk::<Vector4<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9851() { let _ = mk::<Vector4<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9852() { let _ = &mk::<Vector4<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9853() { let _ = &mk::<Vector4<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9854() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9855() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9856() { let _ = mk::<Vector4<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9857() { let _ = mk::<Vector4<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9858() { let _ = &mk::<Vector4<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9859() { let _ = &mk::<Vector4<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p9860() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9861() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p9862() { let _ = mk::<Vector4<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p9863() { let _ = mk::<Vector4<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p9864() { let _: Unit<Quaternion<f64>> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9865() { let _: Unit<Quaternion<f32>> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9866() { let _ = mk::<Vector4<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9867() { let _ = mk::<Vector4<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9868() { let _ = &mk::<Vector4<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9869() { let _ = &mk::<Vector4<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9870() { let mut x = mk::<Vector4<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9871() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9872() { let _ = mk::<Vector4<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9873() { let _ = mk::<Vector4<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9874() { let _ = &mk::<Vector4<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9875() { let _ = &mk::<Vector4<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9876() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9877() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9878() { let _ = mk::<Vector4<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9879() { let _ = mk::<Vector4<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9880() { let _ = &mk::<Vector4<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9881() { let _ = &mk::<Vector4<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9882() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9883() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9884() { let _ = mk::<Vector4<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9885() { let _ = mk::<Vector4<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9886() { let _ = &mk::<Vector4<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9887() { let _ = &mk::<Vector4<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9888() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9889() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9890() { let _ = mk::<Vector4<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9891() { let _ = mk::<Vector4<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9892() { let _ = &mk::<Vector4<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9893() { let _ = &mk::<Vector4<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p9894() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9895() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p9896() { let _ = mk::<Vector4<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p9897() { let _ = mk::<Vector4<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p9898() { let _: Rotation3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9899() { let _: Rotation3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9900() { let _ = mk::<Vector4<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9901() { let _ = mk::<Vector4<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9902() { let _ = &mk::<Vector4<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9903() { let _ = &mk::<Vector4<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9904() { let mut x = mk::<Vector4<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9905() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9906() { let _ = mk::<Vector4<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9907() { let _ = mk::<Vector4<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9908() { let _ = &mk::<Vector4<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9909() { let _ = &mk::<Vector4<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9910() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9911() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9912() { let _ = mk::<Vector4<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9913() { let _ = mk::<Vector4<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9914() { let _ = &mk::<Vector4<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9915() { let _ = &mk::<Vector4<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9916() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9917() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9918() { let _ = mk::<Vector4<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9919() { let _ = mk::<Vector4<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9920() { let _ = &mk::<Vector4<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9921() { let _ = &mk::<Vector4<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9922() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9923() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9924() { let _ = mk::<Vector4<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9925() { let _ = mk::<Vector4<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9926() { let _ = &mk::<Vector4<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9927() { let _ = &mk::<Vector4<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p9928() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9929() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p9930() { let _ = mk::<Vector4<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p9931() { let _ = mk::<Vector4<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p9932() { let _: Translation3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9933() { let _: Translation3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9934() { let _ = mk::<Vector4<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9935() { let _ = mk::<Vector4<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9936() { let _ = &mk::<Vector4<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9937() { let _ = &mk::<Vector4<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9938() { let mut x = mk::<Vector4<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9939() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9940() { let _ = mk::<Vector4<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9941() { let _ = mk::<Vector4<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9942() { let _ = &mk::<Vector4<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9943() { let _ = &mk::<Vector4<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9944() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9945() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9946() { let _ = mk::<Vector4<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9947() { let _ = mk::<Vector4<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9948() { let _ = &mk::<Vector4<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9949() { let _ = &mk::<Vector4<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9950() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9951() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9952() { let _ = mk::<Vector4<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9953() { let _ = mk::<Vector4<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9954() { let _ = &mk::<Vector4<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9955() { let _ = &mk::<Vector4<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9956() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9957() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9958() { let _ = mk::<Vector4<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9959() { let _ = mk::<Vector4<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9960() { let _ = &mk::<Vector4<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9961() { let _ = &mk::<Vector4<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p9962() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9963() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p9964() { let _ = mk::<Vector4<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p9965() { let _ = mk::<Vector4<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p9966() { let _: Scale3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9967() { let _: Scale3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p9968() { let _ = mk::<Vector4<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9969() { let _ = mk::<Vector4<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9970() { let _ = &mk::<Vector4<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9971() { let _ = &mk::<Vector4<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9972() { let mut x = mk::<Vector4<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9973() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9974() { let _ = mk::<Vector4<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9975() { let _ = mk::<Vector4<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9976() { let _ = &mk::<Vector4<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9977() { let _ = &mk::<Vector4<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9978() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9979() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9980() { let _ = mk::<Vector4<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9981() { let _ = mk::<Vector4<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9982() { let _ = &mk::<Vector4<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9983() { let _ = &mk::<Vector4<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9984() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9985() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9986() { let _ = mk::<Vector4<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9987() { let _ = mk::<Vector4<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9988() { let _ = &mk::<Vector4<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9989() { let _ = &mk::<Vector4<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9990() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9991() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9992() { let _ = mk::<Vector4<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9993() { let _ = mk::<Vector4<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9994() { let _ = &mk::<Vector4<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9995() { let _ = &mk::<Vector4<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p9996() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9997() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p9998() { let _ = mk::<Vector4<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p9999() { let _ = mk::<Vector4<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p10000() { let _: Shear3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10001() { let _: Shear3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10002() { let _ = mk::<Vector4<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10003() { let _ = mk::<Vector4<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10004() { let _ = &mk::<Vector4<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10005() { let _ = &mk::<Vector4<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10006() { let mut x = mk::<Vector4<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10007() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10008() { let _ = mk::<Vector4<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10009() { let _ = mk::<Vector4<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10010() { let _ = &mk::<Vector4<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10011() { let _ = &mk::<Vector4<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10012() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10013() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10014() { let _ = mk::<Vector4<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10015() { let _ = mk::<Vector4<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10016() { let _ = &mk::<Vector4<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10017() { let _ = &mk::<Vector4<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10018() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10019() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10020() { let _ = mk::<Vector4<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10021() { let _ = mk::<Vector4<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10022() { let _ = &mk::<Vector4<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10023() { let _ = &mk::<Vector4<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10024() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10025() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10026() { let _ = mk::<Vector4<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10027() { let _ = mk::<Vector4<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10028() { let _ = &mk::<Vector4<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10029() { let _ = &mk::<Vector4<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10030() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10031() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10032() { let _ = mk::<Vector4<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p10033() { let _ = mk::<Vector4<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p10034() { let _: Reflection3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10035() { let _: Reflection3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10036() { let _ = mk::<Vector4<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10037() { let _ = mk::<Vector4<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10038() { let _ = &mk::<Vector4<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10039() { let _ = &mk::<Vector4<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10040() { let mut x = mk::<Vector4<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10041() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10042() { let _ = mk::<Vector4<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10043() { let _ = mk::<Vector4<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10044() { let _ = &mk::<Vector4<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10045() { let _ = &mk::<Vector4<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10046() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10047() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10048() { let _ = mk::<Vector4<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10049() { let _ = mk::<Vector4<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10050() { let _ = &mk::<Vector4<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10051() { let _ = &mk::<Vector4<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10052() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10053() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10054() { let _ = mk::<Vector4<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10055() { let _ = mk::<Vector4<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10056() { let _ = &mk::<Vector4<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10057() { let _ = &mk::<Vector4<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10058() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10059() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10060() { let _ = mk::<Vector4<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10061() { let _ = mk::<Vector4<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10062() { let _ = &mk::<Vector4<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10063() { let _ = &mk::<Vector4<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10064() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10065() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10066() { let _ = mk::<Vector4<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p10067() { let _ = mk::<Vector4<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p10068() { let _: Isometry3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10069() { let _: Isometry3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10070() { let _ = mk::<Vector4<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10071() { let _ = mk::<Vector4<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10072() { let _ = &mk::<Vector4<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10073() { let _ = &mk::<Vector4<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10074() { let mut x = mk::<Vector4<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10075() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10076() { let _ = mk::<Vector4<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10077() { let _ = mk::<Vector4<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10078() { let _ = &mk::<Vector4<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10079() { let _ = &mk::<Vector4<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10080() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10081() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10082() { let _ = mk::<Vector4<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10083() { let _ = mk::<Vector4<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10084() { let _ = &mk::<Vector4<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10085() { let _ = &mk::<Vector4<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10086() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10087() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10088() { let _ = mk::<Vector4<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10089() { let _ = mk::<Vector4<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10090() { let _ = &mk::<Vector4<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10091() { let _ = &mk::<Vector4<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10092() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10093() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10094() { let _ = mk::<Vector4<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10095() { let _ = mk::<Vector4<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10096() { let _ = &mk::<Vector4<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10097() { let _ = &mk::<Vector4<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10098() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10099() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10100() { let _ = mk::<Vector4<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p10101() { let _ = mk::<Vector4<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p10102() { let _: Similarity3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10103() { let _: Similarity3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10104() { let _ = mk::<Vector4<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10105() { let _ = mk::<Vector4<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10106() { let _ = &mk::<Vector4<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10107() { let _ = &mk::<Vector4<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10108() { let mut x = mk::<Vector4<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10109() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10110() { let _ = mk::<Vector4<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10111() { let _ = mk::<Vector4<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10112() { let _ = &mk::<Vector4<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10113() { let _ = &mk::<Vector4<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10114() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10115() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10116() { let _ = mk::<Vector4<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10117() { let _ = mk::<Vector4<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10118() { let _ = &mk::<Vector4<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10119() { let _ = &mk::<Vector4<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10120() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10121() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10122() { let _ = mk::<Vector4<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10123() { let _ = mk::<Vector4<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10124() { let _ = &mk::<Vector4<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10125() { let _ = &mk::<Vector4<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10126() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10127() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10128() { let _ = mk::<Vector4<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10129() { let _ = mk::<Vector4<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10130() { let _ = &mk::<Vector4<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10131() { let _ = &mk::<Vector4<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10132() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10133() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10134() { let _ = mk::<Vector4<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p10135() { let _ = mk::<Vector4<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p10136() { let _: Transform3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10137() { let _: Transform3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10138() { let _ = mk::<Vector4<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10139() { let _ = mk::<Vector4<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10140() { let _ = &mk::<Vector4<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10141() { let _ = &mk::<Vector4<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10142() { let mut x = mk::<Vector4<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10143() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10144() { let _ = mk::<Vector4<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10145() { let _ = mk::<Vector4<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10146() { let _ = &mk::<Vector4<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10147() { let _ = &mk::<Vector4<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10148() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10149() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10150() { let _ = mk::<Vector4<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10151() { let _ = mk::<Vector4<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10152() { let _ = &mk::<Vector4<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10153() { let _ = &mk::<Vector4<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10154() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10155() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10156() { let _ = mk::<Vector4<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10157() { let _ = mk::<Vector4<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10158() { let _ = &mk::<Vector4<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10159() { let _ = &mk::<Vector4<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10160() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10161() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10162() { let _ = mk::<Vector4<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10163() { let _ = mk::<Vector4<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10164() { let _ = &mk::<Vector4<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10165() { let _ = &mk::<Vector4<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10166() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10167() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10168() { let _ = mk::<Vector4<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p10169() { let _ = mk::<Vector4<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p10170() { let _: Perspective3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10171() { let _: Perspective3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10172() { let _ = mk::<Vector4<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10173() { let _ = mk::<Vector4<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10174() { let _ = &mk::<Vector4<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10175() { let _ = &mk::<Vector4<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10176() { let mut x = mk::<Vector4<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10177() { let mut x = mk::<Vector4<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10178() { let _ = mk::<Vector4<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10179() { let _ = mk::<Vector4<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10180() { let _ = &mk::<Vector4<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10181() { let _ = &mk::<Vector4<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10182() { let mut x = mk::<Vector4<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10183() { let mut x = mk::<Vector4<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10184() { let _ = mk::<Vector4<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10185() { let _ = mk::<Vector4<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10186() { let _ = &mk::<Vector4<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10187() { let _ = &mk::<Vector4<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10188() { let mut x = mk::<Vector4<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10189() { let mut x = mk::<Vector4<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10190() { let _ = mk::<Vector4<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10191() { let _ = mk::<Vector4<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10192() { let _ = &mk::<Vector4<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10193() { let _ = &mk::<Vector4<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10194() { let mut x = mk::<Vector4<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10195() { let mut x = mk::<Vector4<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10196() { let _ = mk::<Vector4<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10197() { let _ = mk::<Vector4<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10198() { let _ = &mk::<Vector4<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10199() { let _ = &mk::<Vector4<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p10200() { let mut x = mk::<Vector4<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10201() { let mut x = mk::<Vector4<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p10202() { let _ = mk::<Vector4<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p10203() { let _ = mk::<Vector4<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p10204() { let _: Orthographic3<f64> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10205() { let _: Orthographic3<f32> = mk::<Vector4<f64>>(); } // reject no-implicit-conversion
fn p10206() { let _: Vector4<f64> = -mk::<Vector4<f64>>(); } // accept negation
fn p10207() { let _: Vector4<f64> = -&mk::<Vector4<f64>>(); } // accept negation
fn p10208() { let _ = !mk::<Vector4<f64>>(); } // reject negation
fn p10209() { let _ = !&mk::<Vector4<f64>>(); } // reject negation
fn p10210() { let _: Point3<f64> = mk::<Point3<f64>>() + mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10211() { let _ = mk::<Point3<f64>>() + mk::<Vector3<f32>>(); } // reject operator-precision
fn p10212() { let _ = mk::<Point3<f32>>() + mk::<Vector3<f64>>(); } // reject operator-precision
fn p10213() { let _: Point3<f64> = mk::<Point3<f64>>() + &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10214() { let _ = mk::<Point3<f64>>() + &mk::<Vector3<f32>>(); } // reject operator-precision
fn p10215() { let _ = mk::<Point3<f32>>() + &mk::<Vector3<f64>>(); } // reject operator-precision
fn p10216() { let _: Point3<f64> = &mk::<Point3<f64>>() + mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10217() { let _ = &mk::<Point3<f64>>() + mk::<Vector3<f32>>(); } // reject operator-precision
fn p10218() { let _ = &mk::<Point3<f32>>() + mk::<Vector3<f64>>(); } // reject operator-precision
fn p10219() { let _: Point3<f64> = &mk::<Point3<f64>>() + &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10220() { let _ = &mk::<Point3<f64>>() + &mk::<Vector3<f32>>(); } // reject operator-precision
fn p10221() { let _ = &mk::<Point3<f32>>() + &mk::<Vector3<f64>>(); } // reject operator-precision
fn p10222() { let mut x = mk::<Point3<f64>>(); x += mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p10223() { let mut x = mk::<Point3<f64>>(); x += mk::<Vector3<f32>>(); } // reject operator-precision
fn p10224() { let mut x = mk::<Point3<f64>>(); x += &mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p10225() { let mut x = mk::<Point3<f64>>(); x += &mk::<Vector3<f32>>(); } // reject operator-precision
fn p10226() { let _: Point3<f64> = mk::<Point3<f64>>() - mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10227() { let _ = mk::<Point3<f64>>() - mk::<Vector3<f32>>(); } // reject operator-precision
fn p10228() { let _ = mk::<Point3<f32>>() - mk::<Vector3<f64>>(); } // reject operator-precision
fn p10229() { let _: Point3<f64> = mk::<Point3<f64>>() - &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10230() { let _ = mk::<Point3<f64>>() - &mk::<Vector3<f32>>(); } // reject operator-precision
fn p10231() { let _ = mk::<Point3<f32>>() - &mk::<Vector3<f64>>(); } // reject operator-precision
fn p10232() { let _: Point3<f64> = &mk::<Point3<f64>>() - mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10233() { let _ = &mk::<Point3<f64>>() - mk::<Vector3<f32>>(); } // reject operator-precision
fn p10234() { let _ = &mk::<Point3<f32>>() - mk::<Vector3<f64>>(); } // reject operator-precision
fn p10235() { let _: Point3<f64> = &mk::<Point3<f64>>() - &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p10236() { let _ = &mk::<Point3<f64>>() - &mk::<Vector3<f32>>(); } // reject operator-precision
fn p10237() { let _ = &mk::<Point3<f32>>() - &mk::<Vector3<f64>>(); } // reject operator-precision
fn p10238() { let mut x = mk::<Point3<f64>>(); x -= mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p10239() { let mut x = mk::<Point3<f64>>(); x -= mk::<Vector3<f32>>(); } // reject operator-precision
fn p10240() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Vector3<f64>>(); } // accept assigning-kinds
fn p10241() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Vector3<f32>>(); } // reject operator-precision
fn p10242() { let _ = mk::<Point3<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10243() { let _ = mk::<Point3<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10244() { let _ = &mk::<Point3<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10245() { let _ = &mk::<Point3<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10246() { let mut x = mk::<Point3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p10247() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p10248() { let _ = mk::<Point3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10249() { let _ = mk::<Point3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10250() { let _ = &mk::<Point3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10251() { let _ = &mk::<Point3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10252() { let mut x = mk::<Point3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p10253() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p10254() { let _ = mk::<Point3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10255() { let _ = mk::<Point3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10256() { let _ = &mk::<Point3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10257() { let _ = &mk::<Point3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p10258() { let mut x = mk::<Point3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p10259() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p10260() { let _ = mk::<Point3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p10261() { let _ = mk::<Point3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p10262() { let _: Vector3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10263() { let _: Vector3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10264() { let _ = mk::<Point3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10265() { let _ = mk::<Point3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10266() { let _ = &mk::<Point3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10267() { let _ = &mk::<Point3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10268() { let mut x = mk::<Point3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10269() { let mut x = mk::<Point3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10270() { let _ = mk::<Point3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10271() { let _ = mk::<Point3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10272() { let _ = &mk::<Point3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10273() { let _ = &mk::<Point3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10274() { let mut x = mk::<Point3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10275() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10276() { let _ = mk::<Point3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10277() { let _ = mk::<Point3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10278() { let _ = &mk::<Point3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10279() { let _ = &mk::<Point3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10280() { let mut x = mk::<Point3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10281() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10282() { let _ = mk::<Point3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10283() { let _ = mk::<Point3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10284() { let _ = &mk::<Point3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10285() { let _ = &mk::<Point3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10286() { let mut x = mk::<Point3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10287() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10288() { let _ = mk::<Point3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10289() { let _ = mk::<Point3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10290() { let _ = &mk::<Point3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10291() { let _ = &mk::<Point3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p10292() { let mut x = mk::<Point3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10293() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p10294() { let _ = mk::<Point3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p10295() { let _ = mk::<Point3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p10296() { let _: Vector4<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10297() { let _: Vector4<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10298() { let _ = mk::<Point3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p10299() { let _ = mk::<Point3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10300() { let _ = &mk::<Point3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p10301() { let _ = &mk::<Point3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10302() { let mut x = mk::<Point3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10303() { let mut x = mk::<Point3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10304() { let _: Vector3<f64> = mk::<Point3<f64>>() - mk::<Point3<f64>>(); } // accept operator-kinds
fn p10305() { let _ = mk::<Point3<f64>>() - mk::<Point3<f32>>(); } // reject operator-precision
fn p10306() { let _ = mk::<Point3<f32>>() - mk::<Point3<f64>>(); } // reject operator-precision
fn p10307() { let _: Vector3<f64> = mk::<Point3<f64>>() - &mk::<Point3<f64>>(); } // accept operator-kinds
fn p10308() { let _ = mk::<Point3<f64>>() - &mk::<Point3<f32>>(); } // reject operator-precision
fn p10309() { let _ = mk::<Point3<f32>>() - &mk::<Point3<f64>>(); } // reject operator-precision
fn p10310() { let _: Vector3<f64> = &mk::<Point3<f64>>() - mk::<Point3<f64>>(); } // accept operator-kinds
fn p10311() { let _ = &mk::<Point3<f64>>() - mk::<Point3<f32>>(); } // reject operator-precision
fn p10312() { let _ = &mk::<Point3<f32>>() - mk::<Point3<f64>>(); } // reject operator-precision
fn p10313() { let _: Vector3<f64> = &mk::<Point3<f64>>() - &mk::<Point3<f64>>(); } // accept operator-kinds
fn p10314() { let _ = &mk::<Point3<f64>>() - &mk::<Point3<f32>>(); } // reject operator-precision
fn p10315() { let _ = &mk::<Point3<f32>>() - &mk::<Point3<f64>>(); } // reject operator-precision
fn p10316() { let mut x = mk::<Point3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10317() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10318() { let _ = mk::<Point3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p10319() { let _ = mk::<Point3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10320() { let _ = &mk::<Point3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p10321() { let _ = &mk::<Point3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10322() { let mut x = mk::<Point3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10323() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10324() { let _ = mk::<Point3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p10325() { let _ = mk::<Point3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10326() { let _ = &mk::<Point3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p10327() { let _ = &mk::<Point3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10328() { let mut x = mk::<Point3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10329() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10330() { let _ = mk::<Point3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p10331() { let _ = mk::<Point3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10332() { let _ = &mk::<Point3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p10333() { let _ = &mk::<Point3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p10334() { let mut x = mk::<Point3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10335() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p10336() { let _ = mk::<Point3<f64>>() == mk::<Point3<f64>>(); } // accept equality-kinds
fn p10337() { let _: Point3<f64> = mk::<Point3<f64>>(); } // accept no-implicit-conversion
fn p10338() { let _: Point3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10339() { let _ = mk::<Point3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10340() { let _ = mk::<Point3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10341() { let _ = &mk::<Point3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10342() { let _ = &mk::<Point3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10343() { let mut x = mk::<Point3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10344() { let mut x = mk::<Point3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10345() { let _ = mk::<Point3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10346() { let _ = mk::<Point3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10347() { let _ = &mk::<Point3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10348() { let _ = &mk::<Point3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10349() { let mut x = mk::<Point3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10350() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10351() { let _ = mk::<Point3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10352() { let _ = mk::<Point3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10353() { let _ = &mk::<Point3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10354() { let _ = &mk::<Point3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10355() { let mut x = mk::<Point3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10356() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10357() { let _ = mk::<Point3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10358() { let _ = mk::<Point3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10359() { let _ = &mk::<Point3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10360() { let _ = &mk::<Point3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10361() { let mut x = mk::<Point3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10362() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10363() { let _ = mk::<Point3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10364() { let _ = mk::<Point3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10365() { let _ = &mk::<Point3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10366() { let _ = &mk::<Point3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p10367() { let mut x = mk::<Point3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10368() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p10369() { let _ = mk::<Point3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p10370() { let _ = mk::<Point3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p10371() { let _: Matrix3x3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10372() { let _: Matrix3x3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10373() { let _ = mk::<Point3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10374() { let _ = mk::<Point3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10375() { let _ = &mk::<Point3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10376() { let _ = &mk::<Point3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10377() { let mut x = mk::<Point3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10378() { let mut x = mk::<Point3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10379() { let _ = mk::<Point3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10380() { let _ = mk::<Point3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10381() { let _ = &mk::<Point3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10382() { let _ = &mk::<Point3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10383() { let mut x = mk::<Point3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10384() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10385() { let _ = mk::<Point3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10386() { let _ = mk::<Point3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10387() { let _ = &mk::<Point3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10388() { let _ = &mk::<Point3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10389() { let mut x = mk::<Point3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10390() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10391() { let _ = mk::<Point3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10392() { let _ = mk::<Point3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10393() { let _ = &mk::<Point3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10394() { let _ = &mk::<Point3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10395() { let mut x = mk::<Point3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10396() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10397() { let _ = mk::<Point3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10398() { let _ = mk::<Point3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10399() { let _ = &mk::<Point3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10400() { let _ = &mk::<Point3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p10401() { let mut x = mk::<Point3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10402() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p10403() { let _ = mk::<Point3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p10404() { let _ = mk::<Point3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p10405() { let _: Matrix4x4<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10406() { let _: Matrix4x4<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10407() { let _ = mk::<Point3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10408() { let _ = mk::<Point3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10409() { let _ = &mk::<Point3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10410() { let _ = &mk::<Point3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10411() { let mut x = mk::<Point3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10412() { let mut x = mk::<Point3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10413() { let _ = mk::<Point3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10414() { let _ = mk::<Point3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10415() { let _ = &mk::<Point3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10416() { let _ = &mk::<Point3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10417() { let mut x = mk::<Point3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10418() { let mut x = mk::<Point3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10419() { let _ = mk::<Point3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10420() { let _ = mk::<Point3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10421() { let _ = &mk::<Point3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10422() { let _ = &mk::<Point3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10423() { let mut x = mk::<Point3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10424() { let mut x = mk::<Point3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10425() { let _ = mk::<Point3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10426() { let _ = mk::<Point3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10427() { let _ = &mk::<Point3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10428() { let _ = &mk::<Point3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10429() { let mut x = mk::<Point3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10430() { let mut x = mk::<Point3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10431() { let _ = mk::<Point3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10432() { let _ = mk::<Point3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10433() { let _ = &mk::<Point3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10434() { let _ = &mk::<Point3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p10435() { let mut x = mk::<Point3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10436() { let mut x = mk::<Point3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p10437() { let _ = mk::<Point3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p10438() { let _ = mk::<Point3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p10439() { let _: RowVector3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10440() { let _: RowVector3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10441() { let _ = mk::<Point3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10442() { let _ = mk::<Point3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10443() { let _ = &mk::<Point3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10444() { let _ = &mk::<Point3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10445() { let mut x = mk::<Point3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10446() { let mut x = mk::<Point3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10447() { let _ = mk::<Point3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10448() { let _ = mk::<Point3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10449() { let _ = &mk::<Point3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10450() { let _ = &mk::<Point3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10451() { let mut x = mk::<Point3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10452() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10453() { let _ = mk::<Point3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10454() { let _ = mk::<Point3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10455() { let _ = &mk::<Point3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10456() { let _ = &mk::<Point3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10457() { let mut x = mk::<Point3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10458() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10459() { let _ = mk::<Point3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10460() { let _ = mk::<Point3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10461() { let _ = &mk::<Point3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10462() { let _ = &mk::<Point3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10463() { let mut x = mk::<Point3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10464() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10465() { let _ = mk::<Point3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10466() { let _ = mk::<Point3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10467() { let _ = &mk::<Point3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10468() { let _ = &mk::<Point3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p10469() { let mut x = mk::<Point3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10470() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p10471() { let _ = mk::<Point3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p10472() { let _ = mk::<Point3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p10473() { let _: Quaternion<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10474() { let _: Quaternion<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10475() { let _ = mk::<Point3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p10476() { let _ = mk::<Point3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10477() { let _ = &mk::<Point3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p10478() { let _ = &mk::<Point3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10479() { let mut x = mk::<Point3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10480() { let mut x = mk::<Point3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10481() { let _ = mk::<Point3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p10482() { let _ = mk::<Point3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10483() { let _ = &mk::<Point3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p10484() { let _ = &mk::<Point3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10485() { let mut x = mk::<Point3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10486() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10487() { let _ = mk::<Point3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p10488() { let _ = mk::<Point3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10489() { let _ = &mk::<Point3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p10490() { let _ = &mk::<Point3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10491() { let mut x = mk::<Point3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10492() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10493() { let _ = mk::<Point3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p10494() { let _ = mk::<Point3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10495() { let _ = &mk::<Point3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p10496() { let _ = &mk::<Point3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10497() { let mut x = mk::<Point3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10498() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10499() { let _ = mk::<Point3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p10500() { let _ = mk::<Point3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10501() { let _ = &mk::<Point3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p10502() { let _ = &mk::<Point3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p10503() { let mut x = mk::<Point3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10504() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p10505() { let _ = mk::<Point3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p10506() { let _ = mk::<Point3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p10507() { let _: Complex<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10508() { let _: Complex<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10509() { let _ = mk::<Point3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p10510() { let _ = mk::<Point3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10511() { let _ = &mk::<Point3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p10512() { let _ = &mk::<Point3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10513() { let mut x = mk::<Point3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10514() { let mut x = mk::<Point3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10515() { let _ = mk::<Point3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p10516() { let _ = mk::<Point3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10517() { let _ = &mk::<Point3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p10518() { let _ = &mk::<Point3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10519() { let mut x = mk::<Point3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10520() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10521() { let _ = mk::<Point3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p10522() { let _ = mk::<Point3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10523() { let _ = &mk::<Point3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p10524() { let _ = &mk::<Point3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10525() { let mut x = mk::<Point3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10526() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10527() { let _ = mk::<Point3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p10528() { let _ = mk::<Point3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10529() { let _ = &mk::<Point3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p10530() { let _ = &mk::<Point3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10531() { let mut x = mk::<Point3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10532() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10533() { let _ = mk::<Point3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p10534() { let _ = mk::<Point3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10535() { let _ = &mk::<Point3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p10536() { let _ = &mk::<Point3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p10537() { let mut x = mk::<Point3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10538() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p10539() { let _ = mk::<Point3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p10540() { let _ = mk::<Point3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p10541() { let _: Radians<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10542() { let _: Radians<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10543() { let _ = mk::<Point3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10544() { let _ = mk::<Point3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10545() { let _ = &mk::<Point3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10546() { let _ = &mk::<Point3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10547() { let mut x = mk::<Point3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10548() { let mut x = mk::<Point3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10549() { let _ = mk::<Point3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10550() { let _ = mk::<Point3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10551() { let _ = &mk::<Point3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10552() { let _ = &mk::<Point3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10553() { let mut x = mk::<Point3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10554() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10555() { let _ = mk::<Point3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10556() { let _ = mk::<Point3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10557() { let _ = &mk::<Point3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10558() { let _ = &mk::<Point3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10559() { let mut x = mk::<Point3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10560() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10561() { let _ = mk::<Point3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10562() { let _ = mk::<Point3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10563() { let _ = &mk::<Point3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10564() { let _ = &mk::<Point3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10565() { let mut x = mk::<Point3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10566() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10567() { let _ = mk::<Point3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10568() { let _ = mk::<Point3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10569() { let _ = &mk::<Point3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10570() { let _ = &mk::<Point3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p10571() { let mut x = mk::<Point3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10572() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p10573() { let _ = mk::<Point3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p10574() { let _ = mk::<Point3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p10575() { let _: Degrees<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10576() { let _: Degrees<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10577() { let _ = mk::<Point3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p10578() { let _ = mk::<Point3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p10579() { let _ = &mk::<Point3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p10580() { let _ = &mk::<Point3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p10581() { let mut x = mk::<Point3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p10582() { let mut x = mk::<Point3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p10583() { let _ = mk::<Point3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p10584() { let _ = mk::<Point3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p10585() { let _ = &mk::<Point3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p10586() { let _ = &mk::<Point3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p10587() { let mut x = mk::<Point3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p10588() { let mut x = mk::<Point3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p10589() { let _: Point3<f64> = mk::<Point3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p10590() { let _ = mk::<Point3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p10591() { let _ = mk::<Point3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p10592() { let _: Point3<f64> = &mk::<Point3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p10593() { let _ = &mk::<Point3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p10594() { let _ = &mk::<Point3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p10595() { let mut x = mk::<Point3<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p10596() { let mut x = mk::<Point3<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p10597() { let _: Point3<f64> = mk::<Point3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p10598() { let _ = mk::<Point3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p10599() { let _ = mk::<Point3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p10600() { let _: Point3<f64> = &mk::<Point3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p10601() { let _ = &mk::<Point3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p10602() { let _ = &mk::<Point3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p10603() { let mut x = mk::<Point3<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p10604() { let mut x = mk::<Point3<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p10605() { let _: Point3<f64> = mk::<Point3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p10606() { let _ = mk::<Point3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p10607() { let _ = mk::<Point3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p10608() { let _: Point3<f64> = &mk::<Point3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p10609() { let _ = &mk::<Point3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p10610() { let _ = &mk::<Point3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p10611() { let mut x = mk::<Point3<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p10612() { let mut x = mk::<Point3<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p10613() { let _ = mk::<Point3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p10614() { let _ = mk::<Point3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p10615() { let _: f64 = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10616() { let _: f32 = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10617() { let _ = mk::<Point3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10618() { let _ = mk::<Point3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10619() { let _ = &mk::<Point3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10620() { let _ = &mk::<Point3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10621() { let mut x = mk::<Point3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10622() { let mut x = mk::<Point3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10623() { let _ = mk::<Point3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10624() { let _ = mk::<Point3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10625() { let _ = &mk::<Point3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10626() { let _ = &mk::<Point3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10627() { let mut x = mk::<Point3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10628() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10629() { let _ = mk::<Point3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10630() { let _ = mk::<Point3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10631() { let _ = &mk::<Point3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10632() { let _ = &mk::<Point3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10633() { let mut x = mk::<Point3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10634() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10635() { let _ = mk::<Point3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10636() { let _ = mk::<Point3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10637() { let _ = &mk::<Point3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10638() { let _ = &mk::<Point3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10639() { let mut x = mk::<Point3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10640() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10641() { let _ = mk::<Point3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10642() { let _ = mk::<Point3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10643() { let _ = &mk::<Point3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10644() { let _ = &mk::<Point3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p10645() { let mut x = mk::<Point3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10646() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p10647() { let _ = mk::<Point3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p10648() { let _ = mk::<Point3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p10649() { let _: Euler<Radians<f64>> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10650() { let _: Euler<Radians<f32>> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10651() { let _ = mk::<Point3<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10652() { let _ = mk::<Point3<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10653() { let _ = &mk::<Point3<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10654() { let _ = &mk::<Point3<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10655() { let mut x = mk::<Point3<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p10656() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p10657() { let _ = mk::<Point3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10658() { let _ = mk::<Point3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10659() { let _ = &mk::<Point3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10660() { let _ = &mk::<Point3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10661() { let mut x = mk::<Point3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p10662() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p10663() { let _ = mk::<Point3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10664() { let _ = mk::<Point3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10665() { let _ = &mk::<Point3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10666() { let _ = &mk::<Point3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p10667() { let mut x = mk::<Point3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p10668() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p10669() { let _ = mk::<Point3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p10670() { let _ = mk::<Point3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p10671() { let _: Unit<Vector3<f64>> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10672() { let _: Unit<Vector3<f32>> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10673() { let _ = mk::<Point3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10674() { let _ = mk::<Point3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10675() { let _ = &mk::<Point3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10676() { let _ = &mk::<Point3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10677() { let mut x = mk::<Point3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10678() { let mut x = mk::<Point3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10679() { let _ = mk::<Point3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10680() { let _ = mk::<Point3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10681() { let _ = &mk::<Point3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10682() { let _ = &mk::<Point3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10683() { let mut x = mk::<Point3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10684() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10685() { let _ = mk::<Point3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10686() { let _ = mk::<Point3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10687() { let _ = &mk::<Point3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10688() { let _ = &mk::<Point3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10689() { let mut x = mk::<Point3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10690() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10691() { let _ = mk::<Point3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10692() { let _ = mk::<Point3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10693() { let _ = &mk::<Point3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10694() { let _ = &mk::<Point3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10695() { let mut x = mk::<Point3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10696() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10697() { let _ = mk::<Point3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10698() { let _ = mk::<Point3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10699() { let _ = &mk::<Point3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10700() { let _ = &mk::<Point3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p10701() { let mut x = mk::<Point3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10702() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p10703() { let _ = mk::<Point3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p10704() { let _ = mk::<Point3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p10705() { let _: Unit<Quaternion<f64>> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10706() { let _: Unit<Quaternion<f32>> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10707() { let _ = mk::<Point3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10708() { let _ = mk::<Point3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10709() { let _ = &mk::<Point3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10710() { let _ = &mk::<Point3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10711() { let mut x = mk::<Point3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10712() { let mut x = mk::<Point3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10713() { let _ = mk::<Point3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10714() { let _ = mk::<Point3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10715() { let _ = &mk::<Point3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10716() { let _ = &mk::<Point3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10717() { let mut x = mk::<Point3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10718() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10719() { let _ = mk::<Point3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10720() { let _ = mk::<Point3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10721() { let _ = &mk::<Point3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10722() { let _ = &mk::<Point3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10723() { let mut x = mk::<Point3<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10724() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10725() { let _ = mk::<Point3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10726() { let _ = mk::<Point3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10727() { let _ = &mk::<Point3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10728() { let _ = &mk::<Point3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10729() { let mut x = mk::<Point3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10730() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10731() { let _ = mk::<Point3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10732() { let _ = mk::<Point3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10733() { let _ = &mk::<Point3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10734() { let _ = &mk::<Point3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p10735() { let mut x = mk::<Point3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10736() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p10737() { let _ = mk::<Point3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p10738() { let _ = mk::<Point3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p10739() { let _: Rotation3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10740() { let _: Rotation3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10741() { let _ = mk::<Point3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10742() { let _ = mk::<Point3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10743() { let _ = &mk::<Point3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10744() { let _ = &mk::<Point3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10745() { let mut x = mk::<Point3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10746() { let mut x = mk::<Point3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10747() { let _ = mk::<Point3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10748() { let _ = mk::<Point3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10749() { let _ = &mk::<Point3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10750() { let _ = &mk::<Point3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10751() { let mut x = mk::<Point3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10752() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10753() { let _ = mk::<Point3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10754() { let _ = mk::<Point3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10755() { let _ = &mk::<Point3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10756() { let _ = &mk::<Point3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10757() { let mut x = mk::<Point3<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10758() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10759() { let _ = mk::<Point3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10760() { let _ = mk::<Point3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10761() { let _ = &mk::<Point3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10762() { let _ = &mk::<Point3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10763() { let mut x = mk::<Point3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10764() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10765() { let _ = mk::<Point3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10766() { let _ = mk::<Point3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10767() { let _ = &mk::<Point3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10768() { let _ = &mk::<Point3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p10769() { let mut x = mk::<Point3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10770() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p10771() { let _ = mk::<Point3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p10772() { let _ = mk::<Point3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p10773() { let _: Translation3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10774() { let _: Translation3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10775() { let _ = mk::<Point3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10776() { let _ = mk::<Point3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10777() { let _ = &mk::<Point3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10778() { let _ = &mk::<Point3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10779() { let mut x = mk::<Point3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10780() { let mut x = mk::<Point3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10781() { let _ = mk::<Point3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10782() { let _ = mk::<Point3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10783() { let _ = &mk::<Point3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10784() { let _ = &mk::<Point3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10785() { let mut x = mk::<Point3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10786() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10787() { let _ = mk::<Point3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10788() { let _ = mk::<Point3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10789() { let _ = &mk::<Point3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10790() { let _ = &mk::<Point3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10791() { let mut x = mk::<Point3<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10792() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10793() { let _ = mk::<Point3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10794() { let _ = mk::<Point3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10795() { let _ = &mk::<Point3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10796() { let _ = &mk::<Point3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10797() { let mut x = mk::<Point3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10798() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10799() { let _ = mk::<Point3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10800() { let _ = mk::<Point3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10801() { let _ = &mk::<Point3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10802() { let _ = &mk::<Point3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p10803() { let mut x = mk::<Point3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10804() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p10805() { let _ = mk::<Point3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p10806() { let _ = mk::<Point3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p10807() { let _: Scale3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10808() { let _: Scale3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10809() { let _ = mk::<Point3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10810() { let _ = mk::<Point3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10811() { let _ = &mk::<Point3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10812() { let _ = &mk::<Point3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10813() { let mut x = mk::<Point3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10814() { let mut x = mk::<Point3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10815() { let _ = mk::<Point3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10816() { let _ = mk::<Point3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10817() { let _ = &mk::<Point3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10818() { let _ = &mk::<Point3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10819() { let mut x = mk::<Point3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10820() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10821() { let _ = mk::<Point3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10822() { let _ = mk::<Point3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10823() { let _ = &mk::<Point3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10824() { let _ = &mk::<Point3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10825() { let mut x = mk::<Point3<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10826() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10827() { let _ = mk::<Point3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10828() { let _ = mk::<Point3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10829() { let _ = &mk::<Point3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10830() { let _ = &mk::<Point3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10831() { let mut x = mk::<Point3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10832() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10833() { let _ = mk::<Point3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10834() { let _ = mk::<Point3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10835() { let _ = &mk::<Point3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10836() { let _ = &mk::<Point3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p10837() { let mut x = mk::<Point3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10838() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p10839() { let _ = mk::<Point3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p10840() { let _ = mk::<Point3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p10841() { let _: Shear3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10842() { let _: Shear3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10843() { let _ = mk::<Point3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10844() { let _ = mk::<Point3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10845() { let _ = &mk::<Point3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10846() { let _ = &mk::<Point3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10847() { let mut x = mk::<Point3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10848() { let mut x = mk::<Point3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10849() { let _ = mk::<Point3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10850() { let _ = mk::<Point3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10851() { let _ = &mk::<Point3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10852() { let _ = &mk::<Point3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10853() { let mut x = mk::<Point3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10854() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10855() { let _ = mk::<Point3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10856() { let _ = mk::<Point3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10857() { let _ = &mk::<Point3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10858() { let _ = &mk::<Point3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10859() { let mut x = mk::<Point3<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10860() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10861() { let _ = mk::<Point3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10862() { let _ = mk::<Point3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10863() { let _ = &mk::<Point3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10864() { let _ = &mk::<Point3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10865() { let mut x = mk::<Point3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10866() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10867() { let _ = mk::<Point3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10868() { let _ = mk::<Point3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10869() { let _ = &mk::<Point3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10870() { let _ = &mk::<Point3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p10871() { let mut x = mk::<Point3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10872() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p10873() { let _ = mk::<Point3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p10874() { let _ = mk::<Point3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p10875() { let _: Reflection3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10876() { let _: Reflection3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10877() { let _ = mk::<Point3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10878() { let _ = mk::<Point3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10879() { let _ = &mk::<Point3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10880() { let _ = &mk::<Point3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10881() { let mut x = mk::<Point3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10882() { let mut x = mk::<Point3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10883() { let _ = mk::<Point3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10884() { let _ = mk::<Point3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10885() { let _ = &mk::<Point3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10886() { let _ = &mk::<Point3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10887() { let mut x = mk::<Point3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10888() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10889() { let _ = mk::<Point3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10890() { let _ = mk::<Point3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10891() { let _ = &mk::<Point3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10892() { let _ = &mk::<Point3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10893() { let mut x = mk::<Point3<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10894() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10895() { let _ = mk::<Point3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10896() { let _ = mk::<Point3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10897() { let _ = &mk::<Point3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10898() { let _ = &mk::<Point3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10899() { let mut x = mk::<Point3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10900() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10901() { let _ = mk::<Point3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10902() { let _ = mk::<Point3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10903() { let _ = &mk::<Point3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10904() { let _ = &mk::<Point3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p10905() { let mut x = mk::<Point3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10906() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p10907() { let _ = mk::<Point3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p10908() { let _ = mk::<Point3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p10909() { let _: Isometry3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10910() { let _: Isometry3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10911() { let _ = mk::<Point3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10912() { let _ = mk::<Point3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10913() { let _ = &mk::<Point3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10914() { let _ = &mk::<Point3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10915() { let mut x = mk::<Point3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10916() { let mut x = mk::<Point3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10917() { let _ = mk::<Point3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10918() { let _ = mk::<Point3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10919() { let _ = &mk::<Point3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10920() { let _ = &mk::<Point3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10921() { let mut x = mk::<Point3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10922() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10923() { let _ = mk::<Point3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10924() { let _ = mk::<Point3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10925() { let _ = &mk::<Point3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10926() { let _ = &mk::<Point3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10927() { let mut x = mk::<Point3<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10928() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10929() { let _ = mk::<Point3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10930() { let _ = mk::<Point3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10931() { let _ = &mk::<Point3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10932() { let _ = &mk::<Point3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10933() { let mut x = mk::<Point3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10934() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10935() { let _ = mk::<Point3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10936() { let _ = mk::<Point3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10937() { let _ = &mk::<Point3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10938() { let _ = &mk::<Point3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p10939() { let mut x = mk::<Point3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10940() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p10941() { let _ = mk::<Point3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p10942() { let _ = mk::<Point3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p10943() { let _: Similarity3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10944() { let _: Similarity3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10945() { let _ = mk::<Point3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10946() { let _ = mk::<Point3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10947() { let _ = &mk::<Point3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10948() { let _ = &mk::<Point3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10949() { let mut x = mk::<Point3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10950() { let mut x = mk::<Point3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10951() { let _ = mk::<Point3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10952() { let _ = mk::<Point3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10953() { let _ = &mk::<Point3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10954() { let _ = &mk::<Point3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10955() { let mut x = mk::<Point3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10956() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10957() { let _ = mk::<Point3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10958() { let _ = mk::<Point3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10959() { let _ = &mk::<Point3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10960() { let _ = &mk::<Point3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10961() { let mut x = mk::<Point3<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10962() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10963() { let _ = mk::<Point3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10964() { let _ = mk::<Point3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10965() { let _ = &mk::<Point3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10966() { let _ = &mk::<Point3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10967() { let mut x = mk::<Point3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10968() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10969() { let _ = mk::<Point3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10970() { let _ = mk::<Point3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10971() { let _ = &mk::<Point3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10972() { let _ = &mk::<Point3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p10973() { let mut x = mk::<Point3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10974() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p10975() { let _ = mk::<Point3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p10976() { let _ = mk::<Point3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p10977() { let _: Transform3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10978() { let _: Transform3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p10979() { let _ = mk::<Point3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10980() { let _ = mk::<Point3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10981() { let _ = &mk::<Point3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10982() { let _ = &mk::<Point3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10983() { let mut x = mk::<Point3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10984() { let mut x = mk::<Point3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10985() { let _ = mk::<Point3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10986() { let _ = mk::<Point3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10987() { let _ = &mk::<Point3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10988() { let _ = &mk::<Point3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10989() { let mut x = mk::<Point3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10990() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10991() { let _ = mk::<Point3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10992() { let _ = mk::<Point3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10993() { let _ = &mk::<Point3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10994() { let _ = &mk::<Point3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10995() { let mut x = mk::<Point3<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10996() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p10997() { let _ = mk::<Point3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10998() { let _ = mk::<Point3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p10999() { let _ = &mk::<Point3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11000() { let _ = &mk::<Point3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11001() { let mut x = mk::<Point3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11002() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11003() { let _ = mk::<Point3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11004() { let _ = mk::<Point3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11005() { let _ = &mk::<Point3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11006() { let _ = &mk::<Point3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11007() { let mut x = mk::<Point3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11008() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11009() { let _ = mk::<Point3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p11010() { let _ = mk::<Point3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p11011() { let _: Perspective3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p11012() { let _: Perspective3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p11013() { let _ = mk::<Point3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11014() { let _ = mk::<Point3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11015() { let _ = &mk::<Point3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11016() { let _ = &mk::<Point3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11017() { let mut x = mk::<Point3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11018() { let mut x = mk::<Point3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11019() { let _ = mk::<Point3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11020() { let _ = mk::<Point3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11021() { let _ = &mk::<Point3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11022() { let _ = &mk::<Point3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11023() { let mut x = mk::<Point3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11024() { let mut x = mk::<Point3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11025() { let _ = mk::<Point3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11026() { let _ = mk::<Point3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11027() { let _ = &mk::<Point3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11028() { let _ = &mk::<Point3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11029() { let mut x = mk::<Point3<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11030() { let mut x = mk::<Point3<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11031() { let _ = mk::<Point3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11032() { let _ = mk::<Point3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11033() { let _ = &mk::<Point3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11034() { let _ = &mk::<Point3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11035() { let mut x = mk::<Point3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11036() { let mut x = mk::<Point3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11037() { let _ = mk::<Point3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11038() { let _ = mk::<Point3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11039() { let _ = &mk::<Point3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11040() { let _ = &mk::<Point3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11041() { let mut x = mk::<Point3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11042() { let mut x = mk::<Point3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11043() { let _ = mk::<Point3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p11044() { let _ = mk::<Point3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p11045() { let _: Orthographic3<f64> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p11046() { let _: Orthographic3<f32> = mk::<Point3<f64>>(); } // reject no-implicit-conversion
fn p11047() { let _: Point3<f64> = -mk::<Point3<f64>>(); } // accept negation
fn p11048() { let _: Point3<f64> = -&mk::<Point3<f64>>(); } // accept negation
fn p11049() { let _ = !mk::<Point3<f64>>(); } // reject negation
fn p11050() { let _ = !&mk::<Point3<f64>>(); } // reject negation
fn p11051() { let _ = mk::<Matrix3x3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11052() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11053() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11054() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11055() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11056() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11057() { let _ = mk::<Matrix3x3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11058() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11059() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11060() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11061() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11062() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11063() { let _: Vector3<f64> = mk::<Matrix3x3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p11064() { let _ = mk::<Matrix3x3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p11065() { let _ = mk::<Matrix3x3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p11066() { let _: Vector3<f64> = mk::<Matrix3x3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p11067() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p11068() { let _ = mk::<Matrix3x3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p11069() { let _: Vector3<f64> = &mk::<Matrix3x3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p11070() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p11071() { let _ = &mk::<Matrix3x3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p11072() { let _: Vector3<f64> = &mk::<Matrix3x3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p11073() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p11074() { let _ = &mk::<Matrix3x3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p11075() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11076() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11077() { let _ = mk::<Matrix3x3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11078() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11079() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11080() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11081() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11082() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11083() { let _ = mk::<Matrix3x3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11084() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11085() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11086() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11087() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11088() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11089() { let _ = mk::<Matrix3x3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p11090() { let _ = mk::<Matrix3x3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p11091() { let _: Vector3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11092() { let _: Vector3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11093() { let _ = mk::<Matrix3x3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11094() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11095() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11096() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11097() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11098() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11099() { let _ = mk::<Matrix3x3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11100() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11101() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11102() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11103() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11104() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11105() { let _ = mk::<Matrix3x3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11106() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11107() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11108() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11109() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11110() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11111() { let _ = mk::<Matrix3x3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11112() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11113() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11114() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11115() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11116() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11117() { let _ = mk::<Matrix3x3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11118() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11119() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11120() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11121() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11122() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11123() { let _ = mk::<Matrix3x3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p11124() { let _ = mk::<Matrix3x3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p11125() { let _: Vector4<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11126() { let _: Vector4<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11127() { let _ = mk::<Matrix3x3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p11128() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11129() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p11130() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11131() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11132() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11133() { let _ = mk::<Matrix3x3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p11134() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11135() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p11136() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11137() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11138() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11139() { let _ = mk::<Matrix3x3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p11140() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11141() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p11142() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11143() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11144() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11145() { let _ = mk::<Matrix3x3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p11146() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11147() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p11148() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11149() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11150() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11151() { let _ = mk::<Matrix3x3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p11152() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11153() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p11154() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11155() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11156() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11157() { let _ = mk::<Matrix3x3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p11158() { let _ = mk::<Matrix3x3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p11159() { let _: Point3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11160() { let _: Point3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11161() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() + mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11162() { let _ = mk::<Matrix3x3<f64>>() + mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11163() { let _ = mk::<Matrix3x3<f32>>() + mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11164() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() + &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11165() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11166() { let _ = mk::<Matrix3x3<f32>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11167() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() + mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11168() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11169() { let _ = &mk::<Matrix3x3<f32>>() + mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11170() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() + &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11171() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11172() { let _ = &mk::<Matrix3x3<f32>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11173() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // accept assigning-kinds
fn p11174() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11175() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // accept assigning-kinds
fn p11176() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11177() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() - mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11178() { let _ = mk::<Matrix3x3<f64>>() - mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11179() { let _ = mk::<Matrix3x3<f32>>() - mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11180() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() - &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11181() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11182() { let _ = mk::<Matrix3x3<f32>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11183() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() - mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11184() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11185() { let _ = &mk::<Matrix3x3<f32>>() - mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11186() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() - &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11187() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11188() { let _ = &mk::<Matrix3x3<f32>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11189() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // accept assigning-kinds
fn p11190() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11191() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // accept assigning-kinds
fn p11192() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11193() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() * mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11194() { let _ = mk::<Matrix3x3<f64>>() * mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11195() { let _ = mk::<Matrix3x3<f32>>() * mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11196() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() * &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11197() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11198() { let _ = mk::<Matrix3x3<f32>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11199() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() * mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11200() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11201() { let _ = &mk::<Matrix3x3<f32>>() * mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11202() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() * &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p11203() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p11204() { let _ = &mk::<Matrix3x3<f32>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p11205() { let _ = mk::<Matrix3x3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11206() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11207() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11208() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11209() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p11210() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p11211() { let _ = mk::<Matrix3x3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11212() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11213() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11214() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p11215() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p11216() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p11217() { let _ = mk::<Matrix3x3<f64>>() == mk::<Matrix3x3<f64>>(); } // accept equality-kinds
fn p11218() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>(); } // accept no-implicit-conversion
fn p11219() { let _: Matrix3x3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11220() { let _ = mk::<Matrix3x3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11221() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11222() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11223() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11224() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11225() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11226() { let _ = mk::<Matrix3x3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11227() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11228() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11229() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11230() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11231() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11232() { let _ = mk::<Matrix3x3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11233() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11234() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11235() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11236() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11237() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11238() { let _ = mk::<Matrix3x3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11239() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11240() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11241() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11242() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11243() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11244() { let _ = mk::<Matrix3x3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11245() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11246() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11247() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p11248() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11249() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p11250() { let _ = mk::<Matrix3x3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p11251() { let _ = mk::<Matrix3x3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p11252() { let _: Matrix4x4<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11253() { let _: Matrix4x4<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11254() { let _ = mk::<Matrix3x3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11255() { let _ = mk::<Matrix3x3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11256() { let _ = &mk::<Matrix3x3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11257() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11258() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11259() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11260() { let _ = mk::<Matrix3x3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11261() { let _ = mk::<Matrix3x3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11262() { let _ = &mk::<Matrix3x3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11263() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11264() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11265() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11266() { let _ = mk::<Matrix3x3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11267() { let _ = mk::<Matrix3x3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11268() { let _ = &mk::<Matrix3x3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11269() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11270() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11271() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11272() { let _ = mk::<Matrix3x3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11273() { let _ = mk::<Matrix3x3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11274() { let _ = &mk::<Matrix3x3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11275() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11276() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11277() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11278() { let _ = mk::<Matrix3x3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11279() { let _ = mk::<Matrix3x3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11280() { let _ = &mk::<Matrix3x3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11281() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p11282() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11283() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p11284() { let _ = mk::<Matrix3x3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p11285() { let _ = mk::<Matrix3x3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p11286() { let _: RowVector3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11287() { let _: RowVector3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11288() { let _ = mk::<Matrix3x3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11289() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11290() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11291() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11292() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11293() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11294() { let _ = mk::<Matrix3x3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11295() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11296() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11297() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11298() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11299() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11300() { let _ = mk::<Matrix3x3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11301() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11302() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11303() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11304() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11305() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11306() { let _ = mk::<Matrix3x3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11307() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11308() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11309() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11310() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11311() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11312() { let _ = mk::<Matrix3x3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11313() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11314() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11315() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p11316() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11317() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p11318() { let _ = mk::<Matrix3x3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p11319() { let _ = mk::<Matrix3x3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p11320() { let _: Quaternion<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11321() { let _: Quaternion<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11322() { let _ = mk::<Matrix3x3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p11323() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11324() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p11325() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11326() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11327() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11328() { let _ = mk::<Matrix3x3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p11329() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11330() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p11331() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11332() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11333() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11334() { let _ = mk::<Matrix3x3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p11335() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11336() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p11337() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11338() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11339() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11340() { let _ = mk::<Matrix3x3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p11341() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11342() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p11343() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11344() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11345() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11346() { let _ = mk::<Matrix3x3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p11347() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11348() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p11349() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p11350() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11351() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p11352() { let _ = mk::<Matrix3x3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p11353() { let _ = mk::<Matrix3x3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p11354() { let _: Complex<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11355() { let _: Complex<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11356() { let _ = mk::<Matrix3x3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p11357() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11358() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p11359() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11360() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11361() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11362() { let _ = mk::<Matrix3x3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p11363() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11364() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p11365() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11366() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11367() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11368() { let _ = mk::<Matrix3x3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p11369() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11370() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p11371() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11372() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11373() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11374() { let _ = mk::<Matrix3x3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p11375() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11376() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p11377() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11378() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11379() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11380() { let _ = mk::<Matrix3x3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p11381() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11382() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p11383() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p11384() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11385() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p11386() { let _ = mk::<Matrix3x3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p11387() { let _ = mk::<Matrix3x3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p11388() { let _: Radians<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11389() { let _: Radians<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11390() { let _ = mk::<Matrix3x3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11391() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11392() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11393() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11394() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11395() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11396() { let _ = mk::<Matrix3x3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11397() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11398() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11399() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11400() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11401() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11402() { let _ = mk::<Matrix3x3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11403() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11404() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11405() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11406() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11407() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11408() { let _ = mk::<Matrix3x3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11409() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11410() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11411() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11412() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11413() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11414() { let _ = mk::<Matrix3x3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11415() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11416() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11417() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p11418() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11419() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p11420() { let _ = mk::<Matrix3x3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p11421() { let _ = mk::<Matrix3x3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p11422() { let _: Degrees<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11423() { let _: Degrees<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11424() { let _ = mk::<Matrix3x3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p11425() { let _ = mk::<Matrix3x3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p11426() { let _ = &mk::<Matrix3x3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p11427() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p11428() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p11429() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p11430() { let _ = mk::<Matrix3x3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p11431() { let _ = mk::<Matrix3x3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p11432() { let _ = &mk::<Matrix3x3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p11433() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p11434() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p11435() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p11436() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p11437() { let _ = mk::<Matrix3x3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p11438() { let _ = mk::<Matrix3x3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p11439() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p11440() { let _ = &mk::<Matrix3x3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p11441() { let _ = &mk::<Matrix3x3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p11442() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p11443() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p11444() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p11445() { let _ = mk::<Matrix3x3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p11446() { let _ = mk::<Matrix3x3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p11447() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p11448() { let _ = &mk::<Matrix3x3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p11449() { let _ = &mk::<Matrix3x3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p11450() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p11451() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p11452() { let _: Matrix3x3<f64> = mk::<Matrix3x3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p11453() { let _ = mk::<Matrix3x3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p11454() { let _ = mk::<Matrix3x3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p11455() { let _: Matrix3x3<f64> = &mk::<Matrix3x3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p11456() { let _ = &mk::<Matrix3x3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p11457() { let _ = &mk::<Matrix3x3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p11458() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p11459() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p11460() { let _ = mk::<Matrix3x3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p11461() { let _ = mk::<Matrix3x3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p11462() { let _: f64 = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11463() { let _: f32 = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11464() { let _ = mk::<Matrix3x3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11465() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11466() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11467() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11468() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11469() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11470() { let _ = mk::<Matrix3x3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11471() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11472() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11473() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11474() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11475() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11476() { let _ = mk::<Matrix3x3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11477() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11478() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11479() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11480() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11481() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11482() { let _ = mk::<Matrix3x3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11483() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11484() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11485() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11486() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11487() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11488() { let _ = mk::<Matrix3x3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11489() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11490() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11491() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p11492() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11493() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p11494() { let _ = mk::<Matrix3x3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p11495() { let _ = mk::<Matrix3x3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p11496() { let _: Euler<Radians<f64>> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11497() { let _: Euler<Radians<f32>> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11498() { let _ = mk::<Matrix3x3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11499() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11500() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11501() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11502() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11503() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11504() { let _ = mk::<Matrix3x3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11505() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11506() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11507() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11508() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11509() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11510() { let _ = mk::<Matrix3x3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11511() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11512() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11513() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11514() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11515() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11516() { let _ = mk::<Matrix3x3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11517() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11518() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11519() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p11520() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11521() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p11522() { let _ = mk::<Matrix3x3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p11523() { let _ = mk::<Matrix3x3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p11524() { let _: Unit<Vector3<f64>> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11525() { let _: Unit<Vector3<f32>> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11526() { let _ = mk::<Matrix3x3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11527() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11528() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11529() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11530() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11531() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11532() { let _ = mk::<Matrix3x3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11533() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11534() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11535() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11536() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11537() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11538() { let _ = mk::<Matrix3x3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11539() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11540() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11541() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11542() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11543() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11544() { let _ = mk::<Matrix3x3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11545() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11546() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11547() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11548() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11549() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11550() { let _ = mk::<Matrix3x3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11551() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11552() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11553() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p11554() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11555() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p11556() { let _ = mk::<Matrix3x3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p11557() { let _ = mk::<Matrix3x3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p11558() { let _: Unit<Quaternion<f64>> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11559() { let _: Unit<Quaternion<f32>> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11560() { let _ = mk::<Matrix3x3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11561() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11562() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11563() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11564() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11565() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11566() { let _ = mk::<Matrix3x3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11567() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11568() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11569() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11570() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11571() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11572() { let _ = mk::<Matrix3x3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11573() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11574() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11575() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11576() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11577() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11578() { let _ = mk::<Matrix3x3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11579() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11580() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11581() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11582() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11583() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11584() { let _ = mk::<Matrix3x3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11585() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11586() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11587() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p11588() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11589() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p11590() { let _ = mk::<Matrix3x3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p11591() { let _ = mk::<Matrix3x3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p11592() { let _: Rotation3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11593() { let _: Rotation3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11594() { let _ = mk::<Matrix3x3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11595() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11596() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11597() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11598() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11599() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11600() { let _ = mk::<Matrix3x3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11601() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11602() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11603() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11604() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11605() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11606() { let _ = mk::<Matrix3x3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11607() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11608() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11609() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11610() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11611() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11612() { let _ = mk::<Matrix3x3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11613() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11614() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11615() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11616() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11617() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11618() { let _ = mk::<Matrix3x3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11619() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11620() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11621() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p11622() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11623() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p11624() { let _ = mk::<Matrix3x3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p11625() { let _ = mk::<Matrix3x3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p11626() { let _: Translation3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11627() { let _: Translation3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11628() { let _ = mk::<Matrix3x3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11629() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11630() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11631() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11632() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11633() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11634() { let _ = mk::<Matrix3x3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11635() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11636() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11637() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11638() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11639() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11640() { let _ = mk::<Matrix3x3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11641() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11642() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11643() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11644() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11645() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11646() { let _ = mk::<Matrix3x3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11647() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11648() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11649() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11650() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11651() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11652() { let _ = mk::<Matrix3x3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11653() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11654() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11655() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p11656() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11657() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p11658() { let _ = mk::<Matrix3x3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p11659() { let _ = mk::<Matrix3x3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p11660() { let _: Scale3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11661() { let _: Scale3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11662() { let _ = mk::<Matrix3x3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11663() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11664() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11665() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11666() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11667() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11668() { let _ = mk::<Matrix3x3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11669() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11670() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11671() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11672() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11673() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11674() { let _ = mk::<Matrix3x3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11675() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11676() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11677() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11678() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11679() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11680() { let _ = mk::<Matrix3x3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11681() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11682() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11683() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11684() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11685() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11686() { let _ = mk::<Matrix3x3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11687() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11688() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11689() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p11690() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11691() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p11692() { let _ = mk::<Matrix3x3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p11693() { let _ = mk::<Matrix3x3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p11694() { let _: Shear3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11695() { let _: Shear3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11696() { let _ = mk::<Matrix3x3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11697() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11698() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11699() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11700() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11701() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11702() { let _ = mk::<Matrix3x3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11703() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11704() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11705() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11706() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11707() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11708() { let _ = mk::<Matrix3x3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11709() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11710() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11711() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11712() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11713() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11714() { let _ = mk::<Matrix3x3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11715() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11716() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11717() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11718() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11719() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11720() { let _ = mk::<Matrix3x3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11721() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11722() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11723() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p11724() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11725() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p11726() { let _ = mk::<Matrix3x3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p11727() { let _ = mk::<Matrix3x3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p11728() { let _: Reflection3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11729() { let _: Reflection3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11730() { let _ = mk::<Matrix3x3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11731() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11732() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11733() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11734() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11735() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11736() { let _ = mk::<Matrix3x3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11737() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11738() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11739() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11740() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11741() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11742() { let _ = mk::<Matrix3x3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11743() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11744() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11745() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11746() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11747() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11748() { let _ = mk::<Matrix3x3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11749() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11750() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11751() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11752() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11753() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11754() { let _ = mk::<Matrix3x3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11755() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11756() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11757() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p11758() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11759() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p11760() { let _ = mk::<Matrix3x3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p11761() { let _ = mk::<Matrix3x3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p11762() { let _: Isometry3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11763() { let _: Isometry3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11764() { let _ = mk::<Matrix3x3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11765() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11766() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11767() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11768() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11769() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11770() { let _ = mk::<Matrix3x3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11771() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11772() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11773() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11774() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11775() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11776() { let _ = mk::<Matrix3x3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11777() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11778() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11779() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11780() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11781() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11782() { let _ = mk::<Matrix3x3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11783() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11784() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11785() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11786() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11787() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11788() { let _ = mk::<Matrix3x3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11789() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11790() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11791() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p11792() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11793() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p11794() { let _ = mk::<Matrix3x3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p11795() { let _ = mk::<Matrix3x3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p11796() { let _: Similarity3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11797() { let _: Similarity3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11798() { let _ = mk::<Matrix3x3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11799() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11800() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11801() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11802() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11803() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11804() { let _ = mk::<Matrix3x3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11805() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11806() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11807() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11808() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11809() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11810() { let _ = mk::<Matrix3x3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11811() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11812() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11813() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11814() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11815() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11816() { let _ = mk::<Matrix3x3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11817() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11818() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11819() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11820() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11821() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11822() { let _ = mk::<Matrix3x3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11823() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11824() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11825() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p11826() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11827() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p11828() { let _ = mk::<Matrix3x3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p11829() { let _ = mk::<Matrix3x3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p11830() { let _: Transform3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11831() { let _: Transform3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11832() { let _ = mk::<Matrix3x3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11833() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11834() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11835() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11836() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11837() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11838() { let _ = mk::<Matrix3x3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11839() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11840() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11841() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11842() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11843() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11844() { let _ = mk::<Matrix3x3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11845() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11846() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11847() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11848() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11849() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11850() { let _ = mk::<Matrix3x3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11851() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11852() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11853() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11854() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11855() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11856() { let _ = mk::<Matrix3x3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11857() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11858() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11859() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p11860() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11861() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p11862() { let _ = mk::<Matrix3x3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p11863() { let _ = mk::<Matrix3x3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p11864() { let _: Perspective3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11865() { let _: Perspective3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11866() { let _ = mk::<Matrix3x3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11867() { let _ = mk::<Matrix3x3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11868() { let _ = &mk::<Matrix3x3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11869() { let _ = &mk::<Matrix3x3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11870() { let mut x = mk::<Matrix3x3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11871() { let mut x = mk::<Matrix3x3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11872() { let _ = mk::<Matrix3x3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11873() { let _ = mk::<Matrix3x3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11874() { let _ = &mk::<Matrix3x3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11875() { let _ = &mk::<Matrix3x3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11876() { let mut x = mk::<Matrix3x3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11877() { let mut x = mk::<Matrix3x3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11878() { let _ = mk::<Matrix3x3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11879() { let _ = mk::<Matrix3x3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11880() { let _ = &mk::<Matrix3x3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11881() { let _ = &mk::<Matrix3x3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11882() { let mut x = mk::<Matrix3x3<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11883() { let mut x = mk::<Matrix3x3<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11884() { let _ = mk::<Matrix3x3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11885() { let _ = mk::<Matrix3x3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11886() { let _ = &mk::<Matrix3x3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11887() { let _ = &mk::<Matrix3x3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11888() { let mut x = mk::<Matrix3x3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11889() { let mut x = mk::<Matrix3x3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11890() { let _ = mk::<Matrix3x3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11891() { let _ = mk::<Matrix3x3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11892() { let _ = &mk::<Matrix3x3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11893() { let _ = &mk::<Matrix3x3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p11894() { let mut x = mk::<Matrix3x3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11895() { let mut x = mk::<Matrix3x3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p11896() { let _ = mk::<Matrix3x3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p11897() { let _ = mk::<Matrix3x3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p11898() { let _: Orthographic3<f64> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11899() { let _: Orthographic3<f32> = mk::<Matrix3x3<f64>>(); } // reject no-implicit-conversion
fn p11900() { let _: Matrix3x3<f64> = -mk::<Matrix3x3<f64>>(); } // accept negation
fn p11901() { let _: Matrix3x3<f64> = -&mk::<Matrix3x3<f64>>(); } // accept negation
fn p11902() { let _ = !mk::<Matrix3x3<f64>>(); } // reject negation
fn p11903() { let _ = !&mk::<Matrix3x3<f64>>(); } // reject negation
fn p11904() { let _ = mk::<Matrix4x4<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11905() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11906() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11907() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11908() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11909() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11910() { let _ = mk::<Matrix4x4<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11911() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11912() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11913() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11914() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11915() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11916() { let _ = mk::<Matrix4x4<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11917() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11918() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11919() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11920() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11921() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11922() { let _ = mk::<Matrix4x4<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11923() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11924() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11925() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11926() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11927() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11928() { let _ = mk::<Matrix4x4<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11929() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11930() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11931() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p11932() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11933() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p11934() { let _ = mk::<Matrix4x4<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p11935() { let _ = mk::<Matrix4x4<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p11936() { let _: Vector3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p11937() { let _: Vector3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p11938() { let _ = mk::<Matrix4x4<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11939() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11940() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11941() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11942() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11943() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11944() { let _ = mk::<Matrix4x4<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11945() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11946() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11947() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11948() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11949() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11950() { let _: Vector4<f64> = mk::<Matrix4x4<f64>>() * mk::<Vector4<f64>>(); } // accept operator-kinds
fn p11951() { let _ = mk::<Matrix4x4<f64>>() * mk::<Vector4<f32>>(); } // reject operator-precision
fn p11952() { let _ = mk::<Matrix4x4<f32>>() * mk::<Vector4<f64>>(); } // reject operator-precision
fn p11953() { let _: Vector4<f64> = mk::<Matrix4x4<f64>>() * &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p11954() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Vector4<f32>>(); } // reject operator-precision
fn p11955() { let _ = mk::<Matrix4x4<f32>>() * &mk::<Vector4<f64>>(); } // reject operator-precision
fn p11956() { let _: Vector4<f64> = &mk::<Matrix4x4<f64>>() * mk::<Vector4<f64>>(); } // accept operator-kinds
fn p11957() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Vector4<f32>>(); } // reject operator-precision
fn p11958() { let _ = &mk::<Matrix4x4<f32>>() * mk::<Vector4<f64>>(); } // reject operator-precision
fn p11959() { let _: Vector4<f64> = &mk::<Matrix4x4<f64>>() * &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p11960() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Vector4<f32>>(); } // reject operator-precision
fn p11961() { let _ = &mk::<Matrix4x4<f32>>() * &mk::<Vector4<f64>>(); } // reject operator-precision
fn p11962() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11963() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11964() { let _ = mk::<Matrix4x4<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11965() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11966() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11967() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11968() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11969() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11970() { let _ = mk::<Matrix4x4<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11971() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11972() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11973() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p11974() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11975() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p11976() { let _ = mk::<Matrix4x4<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p11977() { let _ = mk::<Matrix4x4<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p11978() { let _: Vector4<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p11979() { let _: Vector4<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p11980() { let _ = mk::<Matrix4x4<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p11981() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11982() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p11983() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11984() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11985() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11986() { let _ = mk::<Matrix4x4<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p11987() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11988() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p11989() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11990() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11991() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11992() { let _ = mk::<Matrix4x4<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p11993() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11994() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p11995() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p11996() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11997() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p11998() { let _ = mk::<Matrix4x4<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p11999() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12000() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p12001() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12002() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12003() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12004() { let _ = mk::<Matrix4x4<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p12005() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12006() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p12007() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12008() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12009() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12010() { let _ = mk::<Matrix4x4<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p12011() { let _ = mk::<Matrix4x4<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p12012() { let _: Point3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12013() { let _: Point3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12014() { let _ = mk::<Matrix4x4<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12015() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12016() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12017() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12018() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12019() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12020() { let _ = mk::<Matrix4x4<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12021() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12022() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12023() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12024() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12025() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12026() { let _ = mk::<Matrix4x4<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12027() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12028() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12029() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12030() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12031() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12032() { let _ = mk::<Matrix4x4<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12033() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12034() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12035() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12036() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12037() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12038() { let _ = mk::<Matrix4x4<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12039() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12040() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12041() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12042() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12043() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12044() { let _ = mk::<Matrix4x4<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p12045() { let _ = mk::<Matrix4x4<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p12046() { let _: Matrix3x3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12047() { let _: Matrix3x3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12048() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() + mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12049() { let _ = mk::<Matrix4x4<f64>>() + mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12050() { let _ = mk::<Matrix4x4<f32>>() + mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12051() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() + &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12052() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12053() { let _ = mk::<Matrix4x4<f32>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12054() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() + mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12055() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12056() { let _ = &mk::<Matrix4x4<f32>>() + mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12057() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() + &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12058() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12059() { let _ = &mk::<Matrix4x4<f32>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12060() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Matrix4x4<f64>>(); } // accept assigning-kinds
fn p12061() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12062() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // accept assigning-kinds
fn p12063() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12064() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() - mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12065() { let _ = mk::<Matrix4x4<f64>>() - mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12066() { let _ = mk::<Matrix4x4<f32>>() - mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12067() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() - &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12068() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12069() { let _ = mk::<Matrix4x4<f32>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12070() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() - mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12071() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12072() { let _ = &mk::<Matrix4x4<f32>>() - mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12073() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() - &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12074() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12075() { let _ = &mk::<Matrix4x4<f32>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12076() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // accept assigning-kinds
fn p12077() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12078() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // accept assigning-kinds
fn p12079() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12080() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() * mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12081() { let _ = mk::<Matrix4x4<f64>>() * mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12082() { let _ = mk::<Matrix4x4<f32>>() * mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12083() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() * &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12084() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12085() { let _ = mk::<Matrix4x4<f32>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12086() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() * mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12087() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12088() { let _ = &mk::<Matrix4x4<f32>>() * mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12089() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() * &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p12090() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p12091() { let _ = &mk::<Matrix4x4<f32>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p12092() { let _ = mk::<Matrix4x4<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12093() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12094() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12095() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12096() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12097() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12098() { let _ = mk::<Matrix4x4<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12099() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12100() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12101() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12102() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12103() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12104() { let _ = mk::<Matrix4x4<f64>>() == mk::<Matrix4x4<f64>>(); } // accept equality-kinds
fn p12105() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>(); } // accept no-implicit-conversion
fn p12106() { let _: Matrix4x4<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12107() { let _ = mk::<Matrix4x4<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12108() { let _ = mk::<Matrix4x4<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12109() { let _ = &mk::<Matrix4x4<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12110() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12111() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12112() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12113() { let _ = mk::<Matrix4x4<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12114() { let _ = mk::<Matrix4x4<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12115() { let _ = &mk::<Matrix4x4<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12116() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12117() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12118() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12119() { let _ = mk::<Matrix4x4<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12120() { let _ = mk::<Matrix4x4<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12121() { let _ = &mk::<Matrix4x4<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12122() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12123() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12124() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12125() { let _ = mk::<Matrix4x4<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12126() { let _ = mk::<Matrix4x4<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12127() { let _ = &mk::<Matrix4x4<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12128() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12129() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12130() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12131() { let _ = mk::<Matrix4x4<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12132() { let _ = mk::<Matrix4x4<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12133() { let _ = &mk::<Matrix4x4<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12134() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12135() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12136() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12137() { let _ = mk::<Matrix4x4<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p12138() { let _ = mk::<Matrix4x4<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p12139() { let _: RowVector3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12140() { let _: RowVector3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12141() { let _ = mk::<Matrix4x4<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12142() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12143() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12144() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12145() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12146() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12147() { let _ = mk::<Matrix4x4<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12148() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12149() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12150() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12151() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12152() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12153() { let _ = mk::<Matrix4x4<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12154() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12155() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12156() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12157() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12158() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12159() { let _ = mk::<Matrix4x4<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12160() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12161() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12162() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12163() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12164() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12165() { let _ = mk::<Matrix4x4<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12166() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12167() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12168() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p12169() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12170() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p12171() { let _ = mk::<Matrix4x4<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p12172() { let _ = mk::<Matrix4x4<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p12173() { let _: Quaternion<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12174() { let _: Quaternion<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12175() { let _ = mk::<Matrix4x4<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p12176() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12177() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p12178() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12179() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12180() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12181() { let _ = mk::<Matrix4x4<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p12182() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12183() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p12184() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12185() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12186() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12187() { let _ = mk::<Matrix4x4<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p12188() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12189() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p12190() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12191() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12192() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12193() { let _ = mk::<Matrix4x4<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p12194() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12195() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p12196() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12197() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12198() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12199() { let _ = mk::<Matrix4x4<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p12200() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12201() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p12202() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p12203() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12204() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p12205() { let _ = mk::<Matrix4x4<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p12206() { let _ = mk::<Matrix4x4<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p12207() { let _: Complex<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12208() { let _: Complex<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12209() { let _ = mk::<Matrix4x4<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p12210() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12211() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p12212() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12213() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12214() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12215() { let _ = mk::<Matrix4x4<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p12216() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12217() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p12218() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12219() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12220() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12221() { let _ = mk::<Matrix4x4<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p12222() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12223() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p12224() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12225() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12226() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12227() { let _ = mk::<Matrix4x4<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p12228() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12229() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p12230() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12231() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12232() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12233() { let _ = mk::<Matrix4x4<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p12234() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12235() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p12236() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p12237() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12238() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p12239() { let _ = mk::<Matrix4x4<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p12240() { let _ = mk::<Matrix4x4<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p12241() { let _: Radians<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12242() { let _: Radians<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12243() { let _ = mk::<Matrix4x4<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12244() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12245() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12246() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12247() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12248() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12249() { let _ = mk::<Matrix4x4<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12250() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12251() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12252() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12253() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12254() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12255() { let _ = mk::<Matrix4x4<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12256() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12257() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12258() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12259() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12260() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12261() { let _ = mk::<Matrix4x4<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12262() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12263() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12264() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12265() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12266() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12267() { let _ = mk::<Matrix4x4<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12268() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12269() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12270() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p12271() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12272() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p12273() { let _ = mk::<Matrix4x4<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p12274() { let _ = mk::<Matrix4x4<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p12275() { let _: Degrees<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12276() { let _: Degrees<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12277() { let _ = mk::<Matrix4x4<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p12278() { let _ = mk::<Matrix4x4<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p12279() { let _ = &mk::<Matrix4x4<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p12280() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p12281() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p12282() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p12283() { let _ = mk::<Matrix4x4<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p12284() { let _ = mk::<Matrix4x4<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p12285() { let _ = &mk::<Matrix4x4<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p12286() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p12287() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p12288() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p12289() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p12290() { let _ = mk::<Matrix4x4<f64>>() * mk::<f32>(); } // reject operator-precision
fn p12291() { let _ = mk::<Matrix4x4<f32>>() * mk::<f64>(); } // reject operator-precision
fn p12292() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p12293() { let _ = &mk::<Matrix4x4<f64>>() * mk::<f32>(); } // reject operator-precision
fn p12294() { let _ = &mk::<Matrix4x4<f32>>() * mk::<f64>(); } // reject operator-precision
fn p12295() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p12296() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p12297() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p12298() { let _ = mk::<Matrix4x4<f64>>() / mk::<f32>(); } // reject operator-precision
fn p12299() { let _ = mk::<Matrix4x4<f32>>() / mk::<f64>(); } // reject operator-precision
fn p12300() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p12301() { let _ = &mk::<Matrix4x4<f64>>() / mk::<f32>(); } // reject operator-precision
fn p12302() { let _ = &mk::<Matrix4x4<f32>>() / mk::<f64>(); } // reject operator-precision
fn p12303() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p12304() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p12305() { let _: Matrix4x4<f64> = mk::<Matrix4x4<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p12306() { let _ = mk::<Matrix4x4<f64>>() % mk::<f32>(); } // reject operator-precision
fn p12307() { let _ = mk::<Matrix4x4<f32>>() % mk::<f64>(); } // reject operator-precision
fn p12308() { let _: Matrix4x4<f64> = &mk::<Matrix4x4<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p12309() { let _ = &mk::<Matrix4x4<f64>>() % mk::<f32>(); } // reject operator-precision
fn p12310() { let _ = &mk::<Matrix4x4<f32>>() % mk::<f64>(); } // reject operator-precision
fn p12311() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p12312() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p12313() { let _ = mk::<Matrix4x4<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p12314() { let _ = mk::<Matrix4x4<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p12315() { let _: f64 = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12316() { let _: f32 = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12317() { let _ = mk::<Matrix4x4<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12318() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12319() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12320() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12321() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12322() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12323() { let _ = mk::<Matrix4x4<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12324() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12325() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12326() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12327() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12328() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12329() { let _ = mk::<Matrix4x4<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12330() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12331() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12332() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12333() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12334() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12335() { let _ = mk::<Matrix4x4<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12336() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12337() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12338() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12339() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12340() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12341() { let _ = mk::<Matrix4x4<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12342() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12343() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12344() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p12345() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12346() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p12347() { let _ = mk::<Matrix4x4<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p12348() { let _ = mk::<Matrix4x4<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p12349() { let _: Euler<Radians<f64>> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12350() { let _: Euler<Radians<f32>> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12351() { let _ = mk::<Matrix4x4<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12352() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12353() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12354() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12355() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12356() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12357() { let _ = mk::<Matrix4x4<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12358() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12359() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12360() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12361() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12362() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12363() { let _ = mk::<Matrix4x4<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12364() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12365() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12366() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12367() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12368() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12369() { let _ = mk::<Matrix4x4<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12370() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12371() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12372() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12373() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12374() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12375() { let _ = mk::<Matrix4x4<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12376() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12377() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12378() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p12379() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12380() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p12381() { let _ = mk::<Matrix4x4<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p12382() { let _ = mk::<Matrix4x4<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p12383() { let _: Unit<Vector3<f64>> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12384() { let _: Unit<Vector3<f32>> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12385() { let _ = mk::<Matrix4x4<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12386() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12387() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12388() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12389() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12390() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12391() { let _ = mk::<Matrix4x4<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12392() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12393() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12394() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12395() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12396() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12397() { let _ = mk::<Matrix4x4<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12398() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12399() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12400() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12401() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12402() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12403() { let _ = mk::<Matrix4x4<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12404() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12405() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12406() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12407() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12408() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12409() { let _ = mk::<Matrix4x4<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12410() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12411() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12412() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p12413() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12414() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p12415() { let _ = mk::<Matrix4x4<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p12416() { let _ = mk::<Matrix4x4<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p12417() { let _: Unit<Quaternion<f64>> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12418() { let _: Unit<Quaternion<f32>> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12419() { let _ = mk::<Matrix4x4<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12420() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12421() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12422() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12423() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12424() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12425() { let _ = mk::<Matrix4x4<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12426() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12427() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12428() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12429() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12430() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12431() { let _ = mk::<Matrix4x4<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12432() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12433() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12434() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12435() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12436() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12437() { let _ = mk::<Matrix4x4<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12438() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12439() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12440() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12441() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12442() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12443() { let _ = mk::<Matrix4x4<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12444() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12445() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12446() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p12447() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12448() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p12449() { let _ = mk::<Matrix4x4<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p12450() { let _ = mk::<Matrix4x4<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p12451() { let _: Rotation3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12452() { let _: Rotation3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12453() { let _ = mk::<Matrix4x4<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12454() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12455() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12456() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12457() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12458() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12459() { let _ = mk::<Matrix4x4<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12460() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12461() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12462() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12463() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12464() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12465() { let _ = mk::<Matrix4x4<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12466() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12467() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12468() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12469() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12470() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12471() { let _ = mk::<Matrix4x4<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12472() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12473() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12474() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12475() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12476() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12477() { let _ = mk::<Matrix4x4<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12478() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12479() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12480() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p12481() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12482() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p12483() { let _ = mk::<Matrix4x4<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p12484() { let _ = mk::<Matrix4x4<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p12485() { let _: Translation3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12486() { let _: Translation3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12487() { let _ = mk::<Matrix4x4<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12488() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12489() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12490() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12491() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12492() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12493() { let _ = mk::<Matrix4x4<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12494() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12495() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12496() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12497() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12498() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12499() { let _ = mk::<Matrix4x4<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12500() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12501() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12502() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12503() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12504() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12505() { let _ = mk::<Matrix4x4<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12506() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12507() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12508() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12509() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12510() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12511() { let _ = mk::<Matrix4x4<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12512() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12513() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12514() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p12515() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12516() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p12517() { let _ = mk::<Matrix4x4<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p12518() { let _ = mk::<Matrix4x4<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p12519() { let _: Scale3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12520() { let _: Scale3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12521() { let _ = mk::<Matrix4x4<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12522() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12523() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12524() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12525() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12526() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12527() { let _ = mk::<Matrix4x4<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12528() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12529() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12530() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12531() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12532() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12533() { let _ = mk::<Matrix4x4<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12534() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12535() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12536() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12537() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12538() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12539() { let _ = mk::<Matrix4x4<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12540() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12541() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12542() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12543() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12544() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12545() { let _ = mk::<Matrix4x4<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12546() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12547() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12548() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p12549() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12550() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p12551() { let _ = mk::<Matrix4x4<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p12552() { let _ = mk::<Matrix4x4<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p12553() { let _: Shear3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12554() { let _: Shear3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12555() { let _ = mk::<Matrix4x4<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12556() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12557() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12558() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12559() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12560() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12561() { let _ = mk::<Matrix4x4<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12562() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12563() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12564() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12565() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12566() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12567() { let _ = mk::<Matrix4x4<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12568() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12569() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12570() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12571() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12572() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12573() { let _ = mk::<Matrix4x4<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12574() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12575() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12576() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12577() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12578() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12579() { let _ = mk::<Matrix4x4<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12580() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12581() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12582() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p12583() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12584() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p12585() { let _ = mk::<Matrix4x4<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p12586() { let _ = mk::<Matrix4x4<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p12587() { let _: Reflection3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12588() { let _: Reflection3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12589() { let _ = mk::<Matrix4x4<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12590() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12591() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12592() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12593() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12594() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12595() { let _ = mk::<Matrix4x4<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12596() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12597() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12598() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12599() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12600() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12601() { let _ = mk::<Matrix4x4<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12602() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12603() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12604() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12605() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12606() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12607() { let _ = mk::<Matrix4x4<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12608() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12609() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12610() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12611() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12612() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12613() { let _ = mk::<Matrix4x4<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12614() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12615() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12616() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p12617() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12618() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p12619() { let _ = mk::<Matrix4x4<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p12620() { let _ = mk::<Matrix4x4<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p12621() { let _: Isometry3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12622() { let _: Isometry3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12623() { let _ = mk::<Matrix4x4<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12624() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12625() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12626() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12627() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12628() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12629() { let _ = mk::<Matrix4x4<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12630() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12631() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12632() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12633() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12634() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12635() { let _ = mk::<Matrix4x4<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12636() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12637() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12638() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12639() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12640() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12641() { let _ = mk::<Matrix4x4<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12642() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12643() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12644() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12645() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12646() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12647() { let _ = mk::<Matrix4x4<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12648() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12649() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12650() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p12651() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12652() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p12653() { let _ = mk::<Matrix4x4<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p12654() { let _ = mk::<Matrix4x4<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p12655() { let _: Similarity3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12656() { let _: Similarity3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12657() { let _ = mk::<Matrix4x4<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12658() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12659() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12660() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12661() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12662() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12663() { let _ = mk::<Matrix4x4<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12664() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12665() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12666() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12667() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12668() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12669() { let _ = mk::<Matrix4x4<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12670() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12671() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12672() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12673() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12674() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12675() { let _ = mk::<Matrix4x4<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12676() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12677() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12678() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12679() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12680() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12681() { let _ = mk::<Matrix4x4<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12682() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12683() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12684() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p12685() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12686() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p12687() { let _ = mk::<Matrix4x4<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p12688() { let _ = mk::<Matrix4x4<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p12689() { let _: Transform3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12690() { let _: Transform3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12691() { let _ = mk::<Matrix4x4<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12692() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12693() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12694() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12695() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12696() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12697() { let _ = mk::<Matrix4x4<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12698() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12699() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12700() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12701() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12702() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12703() { let _ = mk::<Matrix4x4<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12704() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12705() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12706() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12707() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12708() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12709() { let _ = mk::<Matrix4x4<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12710() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12711() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12712() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12713() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12714() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12715() { let _ = mk::<Matrix4x4<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12716() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12717() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12718() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p12719() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12720() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p12721() { let _ = mk::<Matrix4x4<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p12722() { let _ = mk::<Matrix4x4<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p12723() { let _: Perspective3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12724() { let _: Perspective3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12725() { let _ = mk::<Matrix4x4<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12726() { let _ = mk::<Matrix4x4<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12727() { let _ = &mk::<Matrix4x4<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12728() { let _ = &mk::<Matrix4x4<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12729() { let mut x = mk::<Matrix4x4<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12730() { let mut x = mk::<Matrix4x4<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12731() { let _ = mk::<Matrix4x4<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12732() { let _ = mk::<Matrix4x4<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12733() { let _ = &mk::<Matrix4x4<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12734() { let _ = &mk::<Matrix4x4<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12735() { let mut x = mk::<Matrix4x4<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12736() { let mut x = mk::<Matrix4x4<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12737() { let _ = mk::<Matrix4x4<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12738() { let _ = mk::<Matrix4x4<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12739() { let _ = &mk::<Matrix4x4<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12740() { let _ = &mk::<Matrix4x4<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12741() { let mut x = mk::<Matrix4x4<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12742() { let mut x = mk::<Matrix4x4<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12743() { let _ = mk::<Matrix4x4<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12744() { let _ = mk::<Matrix4x4<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12745() { let _ = &mk::<Matrix4x4<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12746() { let _ = &mk::<Matrix4x4<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12747() { let mut x = mk::<Matrix4x4<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12748() { let mut x = mk::<Matrix4x4<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12749() { let _ = mk::<Matrix4x4<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12750() { let _ = mk::<Matrix4x4<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12751() { let _ = &mk::<Matrix4x4<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12752() { let _ = &mk::<Matrix4x4<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p12753() { let mut x = mk::<Matrix4x4<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12754() { let mut x = mk::<Matrix4x4<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p12755() { let _ = mk::<Matrix4x4<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p12756() { let _ = mk::<Matrix4x4<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p12757() { let _: Orthographic3<f64> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12758() { let _: Orthographic3<f32> = mk::<Matrix4x4<f64>>(); } // reject no-implicit-conversion
fn p12759() { let _: Matrix4x4<f64> = -mk::<Matrix4x4<f64>>(); } // accept negation
fn p12760() { let _: Matrix4x4<f64> = -&mk::<Matrix4x4<f64>>(); } // accept negation
fn p12761() { let _ = !mk::<Matrix4x4<f64>>(); } // reject negation
fn p12762() { let _ = !&mk::<Matrix4x4<f64>>(); } // reject negation
fn p12763() { let _ = mk::<RowVector3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12764() { let _ = mk::<RowVector3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12765() { let _ = &mk::<RowVector3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12766() { let _ = &mk::<RowVector3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12767() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12768() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12769() { let _ = mk::<RowVector3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12770() { let _ = mk::<RowVector3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12771() { let _ = &mk::<RowVector3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12772() { let _ = &mk::<RowVector3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12773() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12774() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12775() { let _: _ = mk::<RowVector3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p12776() { let _ = mk::<RowVector3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p12777() { let _ = mk::<RowVector3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p12778() { let _: _ = mk::<RowVector3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p12779() { let _ = mk::<RowVector3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p12780() { let _ = mk::<RowVector3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p12781() { let _: _ = &mk::<RowVector3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p12782() { let _ = &mk::<RowVector3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p12783() { let _ = &mk::<RowVector3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p12784() { let _: _ = &mk::<RowVector3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p12785() { let _ = &mk::<RowVector3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p12786() { let _ = &mk::<RowVector3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p12787() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12788() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12789() { let _ = mk::<RowVector3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12790() { let _ = mk::<RowVector3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12791() { let _ = &mk::<RowVector3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12792() { let _ = &mk::<RowVector3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12793() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12794() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12795() { let _ = mk::<RowVector3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12796() { let _ = mk::<RowVector3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12797() { let _ = &mk::<RowVector3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12798() { let _ = &mk::<RowVector3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p12799() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12800() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p12801() { let _ = mk::<RowVector3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p12802() { let _ = mk::<RowVector3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p12803() { let _: Vector3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12804() { let _: Vector3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12805() { let _ = mk::<RowVector3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12806() { let _ = mk::<RowVector3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12807() { let _ = &mk::<RowVector3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12808() { let _ = &mk::<RowVector3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12809() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12810() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12811() { let _ = mk::<RowVector3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12812() { let _ = mk::<RowVector3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12813() { let _ = &mk::<RowVector3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12814() { let _ = &mk::<RowVector3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12815() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12816() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12817() { let _ = mk::<RowVector3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12818() { let _ = mk::<RowVector3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12819() { let _ = &mk::<RowVector3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12820() { let _ = &mk::<RowVector3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12821() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12822() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12823() { let _ = mk::<RowVector3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12824() { let _ = mk::<RowVector3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12825() { let _ = &mk::<RowVector3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12826() { let _ = &mk::<RowVector3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12827() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12828() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12829() { let _ = mk::<RowVector3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12830() { let _ = mk::<RowVector3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12831() { let _ = &mk::<RowVector3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12832() { let _ = &mk::<RowVector3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p12833() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12834() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p12835() { let _ = mk::<RowVector3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p12836() { let _ = mk::<RowVector3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p12837() { let _: Vector4<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12838() { let _: Vector4<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12839() { let _ = mk::<RowVector3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p12840() { let _ = mk::<RowVector3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12841() { let _ = &mk::<RowVector3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p12842() { let _ = &mk::<RowVector3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12843() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12844() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12845() { let _ = mk::<RowVector3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p12846() { let _ = mk::<RowVector3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12847() { let _ = &mk::<RowVector3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p12848() { let _ = &mk::<RowVector3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12849() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12850() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12851() { let _ = mk::<RowVector3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p12852() { let _ = mk::<RowVector3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12853() { let _ = &mk::<RowVector3<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p12854() { let _ = &mk::<RowVector3<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12855() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12856() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12857() { let _ = mk::<RowVector3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p12858() { let _ = mk::<RowVector3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12859() { let _ = &mk::<RowVector3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p12860() { let _ = &mk::<RowVector3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12861() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12862() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12863() { let _ = mk::<RowVector3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p12864() { let _ = mk::<RowVector3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12865() { let _ = &mk::<RowVector3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p12866() { let _ = &mk::<RowVector3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p12867() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12868() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p12869() { let _ = mk::<RowVector3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p12870() { let _ = mk::<RowVector3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p12871() { let _: Point3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12872() { let _: Point3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12873() { let _ = mk::<RowVector3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12874() { let _ = mk::<RowVector3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12875() { let _ = &mk::<RowVector3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12876() { let _ = &mk::<RowVector3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12877() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12878() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12879() { let _ = mk::<RowVector3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12880() { let _ = mk::<RowVector3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12881() { let _ = &mk::<RowVector3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12882() { let _ = &mk::<RowVector3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12883() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12884() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12885() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() * mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p12886() { let _ = mk::<RowVector3<f64>>() * mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p12887() { let _ = mk::<RowVector3<f32>>() * mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p12888() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() * &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p12889() { let _ = mk::<RowVector3<f64>>() * &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p12890() { let _ = mk::<RowVector3<f32>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p12891() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() * mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p12892() { let _ = &mk::<RowVector3<f64>>() * mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p12893() { let _ = &mk::<RowVector3<f32>>() * mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p12894() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() * &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p12895() { let _ = &mk::<RowVector3<f64>>() * &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p12896() { let _ = &mk::<RowVector3<f32>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p12897() { let _ = mk::<RowVector3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12898() { let _ = mk::<RowVector3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12899() { let _ = &mk::<RowVector3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12900() { let _ = &mk::<RowVector3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12901() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12902() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12903() { let _ = mk::<RowVector3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12904() { let _ = mk::<RowVector3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12905() { let _ = &mk::<RowVector3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12906() { let _ = &mk::<RowVector3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p12907() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12908() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p12909() { let _ = mk::<RowVector3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p12910() { let _ = mk::<RowVector3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p12911() { let _: Matrix3x3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12912() { let _: Matrix3x3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12913() { let _ = mk::<RowVector3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12914() { let _ = mk::<RowVector3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12915() { let _ = &mk::<RowVector3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12916() { let _ = &mk::<RowVector3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12917() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12918() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12919() { let _ = mk::<RowVector3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12920() { let _ = mk::<RowVector3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12921() { let _ = &mk::<RowVector3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12922() { let _ = &mk::<RowVector3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12923() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12924() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12925() { let _ = mk::<RowVector3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12926() { let _ = mk::<RowVector3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12927() { let _ = &mk::<RowVector3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12928() { let _ = &mk::<RowVector3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12929() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12930() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12931() { let _ = mk::<RowVector3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12932() { let _ = mk::<RowVector3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12933() { let _ = &mk::<RowVector3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12934() { let _ = &mk::<RowVector3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12935() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12936() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12937() { let _ = mk::<RowVector3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12938() { let _ = mk::<RowVector3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12939() { let _ = &mk::<RowVector3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12940() { let _ = &mk::<RowVector3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p12941() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12942() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p12943() { let _ = mk::<RowVector3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p12944() { let _ = mk::<RowVector3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p12945() { let _: Matrix4x4<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12946() { let _: Matrix4x4<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p12947() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() + mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12948() { let _ = mk::<RowVector3<f64>>() + mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12949() { let _ = mk::<RowVector3<f32>>() + mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12950() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() + &mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12951() { let _ = mk::<RowVector3<f64>>() + &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12952() { let _ = mk::<RowVector3<f32>>() + &mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12953() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() + mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12954() { let _ = &mk::<RowVector3<f64>>() + mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12955() { let _ = &mk::<RowVector3<f32>>() + mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12956() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() + &mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12957() { let _ = &mk::<RowVector3<f64>>() + &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12958() { let _ = &mk::<RowVector3<f32>>() + &mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12959() { let mut x = mk::<RowVector3<f64>>(); x += mk::<RowVector3<f64>>(); } // accept assigning-kinds
fn p12960() { let mut x = mk::<RowVector3<f64>>(); x += mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12961() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<RowVector3<f64>>(); } // accept assigning-kinds
fn p12962() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12963() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() - mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12964() { let _ = mk::<RowVector3<f64>>() - mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12965() { let _ = mk::<RowVector3<f32>>() - mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12966() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() - &mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12967() { let _ = mk::<RowVector3<f64>>() - &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12968() { let _ = mk::<RowVector3<f32>>() - &mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12969() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() - mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12970() { let _ = &mk::<RowVector3<f64>>() - mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12971() { let _ = &mk::<RowVector3<f32>>() - mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12972() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() - &mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p12973() { let _ = &mk::<RowVector3<f64>>() - &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12974() { let _ = &mk::<RowVector3<f32>>() - &mk::<RowVector3<f64>>(); } // reject operator-precision
fn p12975() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<RowVector3<f64>>(); } // accept assigning-kinds
fn p12976() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12977() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // accept assigning-kinds
fn p12978() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p12979() { let _ = mk::<RowVector3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12980() { let _ = mk::<RowVector3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12981() { let _ = &mk::<RowVector3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12982() { let _ = &mk::<RowVector3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12983() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12984() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12985() { let _ = mk::<RowVector3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12986() { let _ = mk::<RowVector3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12987() { let _ = &mk::<RowVector3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12988() { let _ = &mk::<RowVector3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12989() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12990() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12991() { let _ = mk::<RowVector3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12992() { let _ = mk::<RowVector3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12993() { let _ = &mk::<RowVector3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12994() { let _ = &mk::<RowVector3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p12995() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12996() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p12997() { let _ = mk::<RowVector3<f64>>() == mk::<RowVector3<f64>>(); } // accept equality-kinds
fn p12998() { let _: RowVector3<f64> = mk::<RowVector3<f64>>(); } // accept no-implicit-conversion
fn p12999() { let _: RowVector3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13000() { let _ = mk::<RowVector3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13001() { let _ = mk::<RowVector3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13002() { let _ = &mk::<RowVector3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13003() { let _ = &mk::<RowVector3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13004() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13005() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13006() { let _ = mk::<RowVector3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13007() { let _ = mk::<RowVector3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13008() { let _ = &mk::<RowVector3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13009() { let _ = &mk::<RowVector3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13010() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13011() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13012() { let _ = mk::<RowVector3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13013() { let _ = mk::<RowVector3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13014() { let _ = &mk::<RowVector3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13015() { let _ = &mk::<RowVector3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13016() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13017() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13018() { let _ = mk::<RowVector3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13019() { let _ = mk::<RowVector3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13020() { let _ = &mk::<RowVector3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13021() { let _ = &mk::<RowVector3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13022() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13023() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13024() { let _ = mk::<RowVector3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13025() { let _ = mk::<RowVector3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13026() { let _ = &mk::<RowVector3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13027() { let _ = &mk::<RowVector3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p13028() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13029() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p13030() { let _ = mk::<RowVector3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p13031() { let _ = mk::<RowVector3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p13032() { let _: Quaternion<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13033() { let _: Quaternion<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13034() { let _ = mk::<RowVector3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p13035() { let _ = mk::<RowVector3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13036() { let _ = &mk::<RowVector3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p13037() { let _ = &mk::<RowVector3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13038() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13039() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13040() { let _ = mk::<RowVector3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p13041() { let _ = mk::<RowVector3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13042() { let _ = &mk::<RowVector3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p13043() { let _ = &mk::<RowVector3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13044() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13045() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13046() { let _ = mk::<RowVector3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p13047() { let _ = mk::<RowVector3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13048() { let _ = &mk::<RowVector3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p13049() { let _ = &mk::<RowVector3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13050() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13051() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13052() { let _ = mk::<RowVector3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p13053() { let _ = mk::<RowVector3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13054() { let _ = &mk::<RowVector3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p13055() { let _ = &mk::<RowVector3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13056() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13057() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13058() { let _ = mk::<RowVector3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p13059() { let _ = mk::<RowVector3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13060() { let _ = &mk::<RowVector3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p13061() { let _ = &mk::<RowVector3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13062() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13063() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13064() { let _ = mk::<RowVector3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p13065() { let _ = mk::<RowVector3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p13066() { let _: Complex<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13067() { let _: Complex<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13068() { let _ = mk::<RowVector3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p13069() { let _ = mk::<RowVector3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13070() { let _ = &mk::<RowVector3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p13071() { let _ = &mk::<RowVector3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13072() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13073() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13074() { let _ = mk::<RowVector3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p13075() { let _ = mk::<RowVector3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13076() { let _ = &mk::<RowVector3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p13077() { let _ = &mk::<RowVector3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13078() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13079() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13080() { let _ = mk::<RowVector3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p13081() { let _ = mk::<RowVector3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13082() { let _ = &mk::<RowVector3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p13083() { let _ = &mk::<RowVector3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13084() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13085() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13086() { let _ = mk::<RowVector3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p13087() { let _ = mk::<RowVector3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13088() { let _ = &mk::<RowVector3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p13089() { let _ = &mk::<RowVector3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13090() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13091() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13092() { let _ = mk::<RowVector3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p13093() { let _ = mk::<RowVector3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13094() { let _ = &mk::<RowVector3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p13095() { let _ = &mk::<RowVector3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13096() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13097() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13098() { let _ = mk::<RowVector3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p13099() { let _ = mk::<RowVector3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p13100() { let _: Radians<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13101() { let _: Radians<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13102() { let _ = mk::<RowVector3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13103() { let _ = mk::<RowVector3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13104() { let _ = &mk::<RowVector3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13105() { let _ = &mk::<RowVector3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13106() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13107() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13108() { let _ = mk::<RowVector3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13109() { let _ = mk::<RowVector3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13110() { let _ = &mk::<RowVector3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13111() { let _ = &mk::<RowVector3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13112() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13113() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13114() { let _ = mk::<RowVector3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13115() { let _ = mk::<RowVector3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13116() { let _ = &mk::<RowVector3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13117() { let _ = &mk::<RowVector3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13118() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13119() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13120() { let _ = mk::<RowVector3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13121() { let _ = mk::<RowVector3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13122() { let _ = &mk::<RowVector3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13123() { let _ = &mk::<RowVector3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13124() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13125() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13126() { let _ = mk::<RowVector3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13127() { let _ = mk::<RowVector3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13128() { let _ = &mk::<RowVector3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13129() { let _ = &mk::<RowVector3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13130() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13131() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13132() { let _ = mk::<RowVector3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p13133() { let _ = mk::<RowVector3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p13134() { let _: Degrees<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13135() { let _: Degrees<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13136() { let _ = mk::<RowVector3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p13137() { let _ = mk::<RowVector3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p13138() { let _ = &mk::<RowVector3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p13139() { let _ = &mk::<RowVector3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p13140() { let mut x = mk::<RowVector3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p13141() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p13142() { let _ = mk::<RowVector3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p13143() { let _ = mk::<RowVector3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p13144() { let _ = &mk::<RowVector3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p13145() { let _ = &mk::<RowVector3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p13146() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p13147() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p13148() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p13149() { let _ = mk::<RowVector3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p13150() { let _ = mk::<RowVector3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p13151() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p13152() { let _ = &mk::<RowVector3<f64>>() * mk::<f32>(); } // reject operator-precision
fn p13153() { let _ = &mk::<RowVector3<f32>>() * mk::<f64>(); } // reject operator-precision
fn p13154() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p13155() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p13156() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p13157() { let _ = mk::<RowVector3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p13158() { let _ = mk::<RowVector3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p13159() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p13160() { let _ = &mk::<RowVector3<f64>>() / mk::<f32>(); } // reject operator-precision
fn p13161() { let _ = &mk::<RowVector3<f32>>() / mk::<f64>(); } // reject operator-precision
fn p13162() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p13163() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p13164() { let _: RowVector3<f64> = mk::<RowVector3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p13165() { let _ = mk::<RowVector3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p13166() { let _ = mk::<RowVector3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p13167() { let _: RowVector3<f64> = &mk::<RowVector3<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p13168() { let _ = &mk::<RowVector3<f64>>() % mk::<f32>(); } // reject operator-precision
fn p13169() { let _ = &mk::<RowVector3<f32>>() % mk::<f64>(); } // reject operator-precision
fn p13170() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p13171() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p13172() { let _ = mk::<RowVector3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p13173() { let _ = mk::<RowVector3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p13174() { let _: f64 = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13175() { let _: f32 = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13176() { let _ = mk::<RowVector3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13177() { let _ = mk::<RowVector3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13178() { let _ = &mk::<RowVector3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13179() { let _ = &mk::<RowVector3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13180() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13181() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13182() { let _ = mk::<RowVector3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13183() { let _ = mk::<RowVector3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13184() { let _ = &mk::<RowVector3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13185() { let _ = &mk::<RowVector3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13186() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13187() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13188() { let _ = mk::<RowVector3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13189() { let _ = mk::<RowVector3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13190() { let _ = &mk::<RowVector3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13191() { let _ = &mk::<RowVector3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13192() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13193() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13194() { let _ = mk::<RowVector3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13195() { let _ = mk::<RowVector3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13196() { let _ = &mk::<RowVector3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13197() { let _ = &mk::<RowVector3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13198() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13199() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13200() { let _ = mk::<RowVector3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13201() { let _ = mk::<RowVector3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13202() { let _ = &mk::<RowVector3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13203() { let _ = &mk::<RowVector3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p13204() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13205() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p13206() { let _ = mk::<RowVector3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p13207() { let _ = mk::<RowVector3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p13208() { let _: Euler<Radians<f64>> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13209() { let _: Euler<Radians<f32>> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13210() { let _ = mk::<RowVector3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13211() { let _ = mk::<RowVector3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13212() { let _ = &mk::<RowVector3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13213() { let _ = &mk::<RowVector3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13214() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13215() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13216() { let _ = mk::<RowVector3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13217() { let _ = mk::<RowVector3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13218() { let _ = &mk::<RowVector3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13219() { let _ = &mk::<RowVector3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13220() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13221() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13222() { let _ = mk::<RowVector3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13223() { let _ = mk::<RowVector3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13224() { let _ = &mk::<RowVector3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13225() { let _ = &mk::<RowVector3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13226() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13227() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13228() { let _ = mk::<RowVector3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13229() { let _ = mk::<RowVector3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13230() { let _ = &mk::<RowVector3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13231() { let _ = &mk::<RowVector3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p13232() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13233() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p13234() { let _ = mk::<RowVector3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p13235() { let _ = mk::<RowVector3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p13236() { let _: Unit<Vector3<f64>> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13237() { let _: Unit<Vector3<f32>> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13238() { let _ = mk::<RowVector3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13239() { let _ = mk::<RowVector3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13240() { let _ = &mk::<RowVector3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13241() { let _ = &mk::<RowVector3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13242() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13243() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13244() { let _ = mk::<RowVector3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13245() { let _ = mk::<RowVector3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13246() { let _ = &mk::<RowVector3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13247() { let _ = &mk::<RowVector3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13248() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13249() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13250() { let _ = mk::<RowVector3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13251() { let _ = mk::<RowVector3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13252() { let _ = &mk::<RowVector3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13253() { let _ = &mk::<RowVector3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13254() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13255() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13256() { let _ = mk::<RowVector3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13257() { let _ = mk::<RowVector3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13258() { let _ = &mk::<RowVector3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13259() { let _ = &mk::<RowVector3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13260() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13261() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13262() { let _ = mk::<RowVector3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13263() { let _ = mk::<RowVector3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13264() { let _ = &mk::<RowVector3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13265() { let _ = &mk::<RowVector3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p13266() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13267() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p13268() { let _ = mk::<RowVector3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p13269() { let _ = mk::<RowVector3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p13270() { let _: Unit<Quaternion<f64>> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13271() { let _: Unit<Quaternion<f32>> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13272() { let _ = mk::<RowVector3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13273() { let _ = mk::<RowVector3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13274() { let _ = &mk::<RowVector3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13275() { let _ = &mk::<RowVector3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13276() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13277() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13278() { let _ = mk::<RowVector3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13279() { let _ = mk::<RowVector3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13280() { let _ = &mk::<RowVector3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13281() { let _ = &mk::<RowVector3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13282() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13283() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13284() { let _ = mk::<RowVector3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13285() { let _ = mk::<RowVector3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13286() { let _ = &mk::<RowVector3<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13287() { let _ = &mk::<RowVector3<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13288() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13289() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13290() { let _ = mk::<RowVector3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13291() { let _ = mk::<RowVector3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13292() { let _ = &mk::<RowVector3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13293() { let _ = &mk::<RowVector3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13294() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13295() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13296() { let _ = mk::<RowVector3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13297() { let _ = mk::<RowVector3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13298() { let _ = &mk::<RowVector3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13299() { let _ = &mk::<RowVector3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p13300() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13301() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p13302() { let _ = mk::<RowVector3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p13303() { let _ = mk::<RowVector3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p13304() { let _: Rotation3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13305() { let _: Rotation3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13306() { let _ = mk::<RowVector3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13307() { let _ = mk::<RowVector3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13308() { let _ = &mk::<RowVector3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13309() { let _ = &mk::<RowVector3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13310() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13311() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13312() { let _ = mk::<RowVector3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13313() { let _ = mk::<RowVector3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13314() { let _ = &mk::<RowVector3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13315() { let _ = &mk::<RowVector3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13316() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13317() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13318() { let _ = mk::<RowVector3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13319() { let _ = mk::<RowVector3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13320() { let _ = &mk::<RowVector3<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13321() { let _ = &mk::<RowVector3<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13322() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13323() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13324() { let _ = mk::<RowVector3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13325() { let _ = mk::<RowVector3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13326() { let _ = &mk::<RowVector3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13327() { let _ = &mk::<RowVector3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13328() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13329() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13330() { let _ = mk::<RowVector3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13331() { let _ = mk::<RowVector3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13332() { let _ = &mk::<RowVector3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13333() { let _ = &mk::<RowVector3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p13334() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13335() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p13336() { let _ = mk::<RowVector3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p13337() { let _ = mk::<RowVector3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p13338() { let _: Translation3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13339() { let _: Translation3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13340() { let _ = mk::<RowVector3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13341() { let _ = mk::<RowVector3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13342() { let _ = &mk::<RowVector3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13343() { let _ = &mk::<RowVector3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13344() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13345() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13346() { let _ = mk::<RowVector3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13347() { let _ = mk::<RowVector3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13348() { let _ = &mk::<RowVector3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13349() { let _ = &mk::<RowVector3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13350() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13351() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13352() { let _ = mk::<RowVector3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13353() { let _ = mk::<RowVector3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13354() { let _ = &mk::<RowVector3<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13355() { let _ = &mk::<RowVector3<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13356() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13357() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13358() { let _ = mk::<RowVector3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13359() { let _ = mk::<RowVector3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13360() { let _ = &mk::<RowVector3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13361() { let _ = &mk::<RowVector3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13362() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13363() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13364() { let _ = mk::<RowVector3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13365() { let _ = mk::<RowVector3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13366() { let _ = &mk::<RowVector3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13367() { let _ = &mk::<RowVector3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p13368() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13369() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p13370() { let _ = mk::<RowVector3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p13371() { let _ = mk::<RowVector3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p13372() { let _: Scale3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13373() { let _: Scale3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13374() { let _ = mk::<RowVector3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13375() { let _ = mk::<RowVector3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13376() { let _ = &mk::<RowVector3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13377() { let _ = &mk::<RowVector3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13378() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13379() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13380() { let _ = mk::<RowVector3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13381() { let _ = mk::<RowVector3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13382() { let _ = &mk::<RowVector3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13383() { let _ = &mk::<RowVector3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13384() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13385() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13386() { let _ = mk::<RowVector3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13387() { let _ = mk::<RowVector3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13388() { let _ = &mk::<RowVector3<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13389() { let _ = &mk::<RowVector3<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13390() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13391() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13392() { let _ = mk::<RowVector3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13393() { let _ = mk::<RowVector3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13394() { let _ = &mk::<RowVector3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13395() { let _ = &mk::<RowVector3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13396() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13397() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13398() { let _ = mk::<RowVector3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13399() { let _ = mk::<RowVector3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13400() { let _ = &mk::<RowVector3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13401() { let _ = &mk::<RowVector3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p13402() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13403() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p13404() { let _ = mk::<RowVector3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p13405() { let _ = mk::<RowVector3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p13406() { let _: Shear3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13407() { let _: Shear3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13408() { let _ = mk::<RowVector3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13409() { let _ = mk::<RowVector3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13410() { let _ = &mk::<RowVector3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13411() { let _ = &mk::<RowVector3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13412() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13413() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13414() { let _ = mk::<RowVector3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13415() { let _ = mk::<RowVector3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13416() { let _ = &mk::<RowVector3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13417() { let _ = &mk::<RowVector3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13418() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13419() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13420() { let _ = mk::<RowVector3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13421() { let _ = mk::<RowVector3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13422() { let _ = &mk::<RowVector3<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13423() { let _ = &mk::<RowVector3<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13424() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13425() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13426() { let _ = mk::<RowVector3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13427() { let _ = mk::<RowVector3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13428() { let _ = &mk::<RowVector3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13429() { let _ = &mk::<RowVector3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13430() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13431() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13432() { let _ = mk::<RowVector3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13433() { let _ = mk::<RowVector3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13434() { let _ = &mk::<RowVector3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13435() { let _ = &mk::<RowVector3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p13436() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13437() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p13438() { let _ = mk::<RowVector3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p13439() { let _ = mk::<RowVector3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p13440() { let _: Reflection3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13441() { let _: Reflection3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13442() { let _ = mk::<RowVector3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13443() { let _ = mk::<RowVector3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13444() { let _ = &mk::<RowVector3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13445() { let _ = &mk::<RowVector3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13446() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13447() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13448() { let _ = mk::<RowVector3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13449() { let _ = mk::<RowVector3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13450() { let _ = &mk::<RowVector3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13451() { let _ = &mk::<RowVector3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13452() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13453() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13454() { let _ = mk::<RowVector3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13455() { let _ = mk::<RowVector3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13456() { let _ = &mk::<RowVector3<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13457() { let _ = &mk::<RowVector3<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13458() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13459() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13460() { let _ = mk::<RowVector3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13461() { let _ = mk::<RowVector3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13462() { let _ = &mk::<RowVector3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13463() { let _ = &mk::<RowVector3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13464() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13465() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13466() { let _ = mk::<RowVector3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13467() { let _ = mk::<RowVector3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13468() { let _ = &mk::<RowVector3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13469() { let _ = &mk::<RowVector3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p13470() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13471() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p13472() { let _ = mk::<RowVector3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p13473() { let _ = mk::<RowVector3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p13474() { let _: Isometry3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13475() { let _: Isometry3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13476() { let _ = mk::<RowVector3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13477() { let _ = mk::<RowVector3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13478() { let _ = &mk::<RowVector3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13479() { let _ = &mk::<RowVector3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13480() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13481() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13482() { let _ = mk::<RowVector3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13483() { let _ = mk::<RowVector3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13484() { let _ = &mk::<RowVector3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13485() { let _ = &mk::<RowVector3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13486() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13487() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13488() { let _ = mk::<RowVector3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13489() { let _ = mk::<RowVector3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13490() { let _ = &mk::<RowVector3<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13491() { let _ = &mk::<RowVector3<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13492() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13493() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13494() { let _ = mk::<RowVector3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13495() { let _ = mk::<RowVector3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13496() { let _ = &mk::<RowVector3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13497() { let _ = &mk::<RowVector3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13498() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13499() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13500() { let _ = mk::<RowVector3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13501() { let _ = mk::<RowVector3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13502() { let _ = &mk::<RowVector3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13503() { let _ = &mk::<RowVector3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p13504() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13505() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p13506() { let _ = mk::<RowVector3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p13507() { let _ = mk::<RowVector3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p13508() { let _: Similarity3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13509() { let _: Similarity3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13510() { let _ = mk::<RowVector3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13511() { let _ = mk::<RowVector3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13512() { let _ = &mk::<RowVector3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13513() { let _ = &mk::<RowVector3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13514() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13515() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13516() { let _ = mk::<RowVector3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13517() { let _ = mk::<RowVector3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13518() { let _ = &mk::<RowVector3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13519() { let _ = &mk::<RowVector3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13520() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13521() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13522() { let _ = mk::<RowVector3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13523() { let _ = mk::<RowVector3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13524() { let _ = &mk::<RowVector3<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13525() { let _ = &mk::<RowVector3<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13526() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13527() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13528() { let _ = mk::<RowVector3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13529() { let _ = mk::<RowVector3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13530() { let _ = &mk::<RowVector3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13531() { let _ = &mk::<RowVector3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13532() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13533() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13534() { let _ = mk::<RowVector3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13535() { let _ = mk::<RowVector3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13536() { let _ = &mk::<RowVector3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13537() { let _ = &mk::<RowVector3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p13538() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13539() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p13540() { let _ = mk::<RowVector3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p13541() { let _ = mk::<RowVector3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p13542() { let _: Transform3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13543() { let _: Transform3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13544() { let _ = mk::<RowVector3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13545() { let _ = mk::<RowVector3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13546() { let _ = &mk::<RowVector3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13547() { let _ = &mk::<RowVector3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13548() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13549() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13550() { let _ = mk::<RowVector3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13551() { let _ = mk::<RowVector3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13552() { let _ = &mk::<RowVector3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13553() { let _ = &mk::<RowVector3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13554() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13555() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13556() { let _ = mk::<RowVector3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13557() { let _ = mk::<RowVector3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13558() { let _ = &mk::<RowVector3<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13559() { let _ = &mk::<RowVector3<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13560() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13561() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13562() { let _ = mk::<RowVector3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13563() { let _ = mk::<RowVector3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13564() { let _ = &mk::<RowVector3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13565() { let _ = &mk::<RowVector3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13566() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13567() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13568() { let _ = mk::<RowVector3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13569() { let _ = mk::<RowVector3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13570() { let _ = &mk::<RowVector3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13571() { let _ = &mk::<RowVector3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p13572() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13573() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p13574() { let _ = mk::<RowVector3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p13575() { let _ = mk::<RowVector3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p13576() { let _: Perspective3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13577() { let _: Perspective3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13578() { let _ = mk::<RowVector3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13579() { let _ = mk::<RowVector3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13580() { let _ = &mk::<RowVector3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13581() { let _ = &mk::<RowVector3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13582() { let mut x = mk::<RowVector3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13583() { let mut x = mk::<RowVector3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13584() { let _ = mk::<RowVector3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13585() { let _ = mk::<RowVector3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13586() { let _ = &mk::<RowVector3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13587() { let _ = &mk::<RowVector3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13588() { let mut x = mk::<RowVector3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13589() { let mut x = mk::<RowVector3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13590() { let _ = mk::<RowVector3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13591() { let _ = mk::<RowVector3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13592() { let _ = &mk::<RowVector3<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13593() { let _ = &mk::<RowVector3<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13594() { let mut x = mk::<RowVector3<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13595() { let mut x = mk::<RowVector3<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13596() { let _ = mk::<RowVector3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13597() { let _ = mk::<RowVector3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13598() { let _ = &mk::<RowVector3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13599() { let _ = &mk::<RowVector3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13600() { let mut x = mk::<RowVector3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13601() { let mut x = mk::<RowVector3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13602() { let _ = mk::<RowVector3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13603() { let _ = mk::<RowVector3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13604() { let _ = &mk::<RowVector3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13605() { let _ = &mk::<RowVector3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p13606() { let mut x = mk::<RowVector3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13607() { let mut x = mk::<RowVector3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p13608() { let _ = mk::<RowVector3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p13609() { let _ = mk::<RowVector3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p13610() { let _: Orthographic3<f64> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13611() { let _: Orthographic3<f32> = mk::<RowVector3<f64>>(); } // reject no-implicit-conversion
fn p13612() { let _: RowVector3<f64> = -mk::<RowVector3<f64>>(); } // accept negation
fn p13613() { let _: RowVector3<f64> = -&mk::<RowVector3<f64>>(); } // accept negation
fn p13614() { let _ = !mk::<RowVector3<f64>>(); } // reject negation
fn p13615() { let _ = !&mk::<RowVector3<f64>>(); } // reject negation
fn p13616() { let _ = mk::<Quaternion<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13617() { let _ = mk::<Quaternion<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13618() { let _ = &mk::<Quaternion<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13619() { let _ = &mk::<Quaternion<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13620() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13621() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13622() { let _ = mk::<Quaternion<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13623() { let _ = mk::<Quaternion<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13624() { let _ = &mk::<Quaternion<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13625() { let _ = &mk::<Quaternion<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13626() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13627() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13628() { let _ = mk::<Quaternion<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13629() { let _ = mk::<Quaternion<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13630() { let _ = &mk::<Quaternion<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13631() { let _ = &mk::<Quaternion<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13632() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13633() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13634() { let _ = mk::<Quaternion<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13635() { let _ = mk::<Quaternion<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13636() { let _ = &mk::<Quaternion<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13637() { let _ = &mk::<Quaternion<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p13638() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13639() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p13640() { let _ = mk::<Quaternion<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p13641() { let _ = mk::<Quaternion<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p13642() { let _: Vector3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13643() { let _: Vector3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13644() { let _ = mk::<Quaternion<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13645() { let _ = mk::<Quaternion<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13646() { let _ = &mk::<Quaternion<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13647() { let _ = &mk::<Quaternion<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13648() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13649() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13650() { let _ = mk::<Quaternion<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13651() { let _ = mk::<Quaternion<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13652() { let _ = &mk::<Quaternion<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13653() { let _ = &mk::<Quaternion<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13654() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13655() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13656() { let _ = mk::<Quaternion<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13657() { let _ = mk::<Quaternion<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13658() { let _ = &mk::<Quaternion<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13659() { let _ = &mk::<Quaternion<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13660() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13661() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13662() { let _ = mk::<Quaternion<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13663() { let _ = mk::<Quaternion<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13664() { let _ = &mk::<Quaternion<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13665() { let _ = &mk::<Quaternion<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13666() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13667() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13668() { let _ = mk::<Quaternion<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13669() { let _ = mk::<Quaternion<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13670() { let _ = &mk::<Quaternion<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13671() { let _ = &mk::<Quaternion<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p13672() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13673() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p13674() { let _ = mk::<Quaternion<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p13675() { let _ = mk::<Quaternion<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p13676() { let _: Vector4<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13677() { let _: Vector4<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13678() { let _ = mk::<Quaternion<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p13679() { let _ = mk::<Quaternion<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13680() { let _ = &mk::<Quaternion<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p13681() { let _ = &mk::<Quaternion<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13682() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13683() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13684() { let _ = mk::<Quaternion<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p13685() { let _ = mk::<Quaternion<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13686() { let _ = &mk::<Quaternion<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p13687() { let _ = &mk::<Quaternion<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13688() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13689() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13690() { let _ = mk::<Quaternion<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p13691() { let _ = mk::<Quaternion<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13692() { let _ = &mk::<Quaternion<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p13693() { let _ = &mk::<Quaternion<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13694() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13695() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13696() { let _ = mk::<Quaternion<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p13697() { let _ = mk::<Quaternion<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13698() { let _ = &mk::<Quaternion<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p13699() { let _ = &mk::<Quaternion<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13700() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13701() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13702() { let _ = mk::<Quaternion<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p13703() { let _ = mk::<Quaternion<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13704() { let _ = &mk::<Quaternion<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p13705() { let _ = &mk::<Quaternion<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p13706() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13707() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p13708() { let _ = mk::<Quaternion<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p13709() { let _ = mk::<Quaternion<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p13710() { let _: Point3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13711() { let _: Point3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13712() { let _ = mk::<Quaternion<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13713() { let _ = mk::<Quaternion<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13714() { let _ = &mk::<Quaternion<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13715() { let _ = &mk::<Quaternion<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13716() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13717() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13718() { let _ = mk::<Quaternion<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13719() { let _ = mk::<Quaternion<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13720() { let _ = &mk::<Quaternion<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13721() { let _ = &mk::<Quaternion<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13722() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13723() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13724() { let _ = mk::<Quaternion<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13725() { let _ = mk::<Quaternion<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13726() { let _ = &mk::<Quaternion<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13727() { let _ = &mk::<Quaternion<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13728() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13729() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13730() { let _ = mk::<Quaternion<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13731() { let _ = mk::<Quaternion<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13732() { let _ = &mk::<Quaternion<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13733() { let _ = &mk::<Quaternion<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13734() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13735() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13736() { let _ = mk::<Quaternion<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13737() { let _ = mk::<Quaternion<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13738() { let _ = &mk::<Quaternion<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13739() { let _ = &mk::<Quaternion<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p13740() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13741() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p13742() { let _ = mk::<Quaternion<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p13743() { let _ = mk::<Quaternion<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p13744() { let _: Matrix3x3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13745() { let _: Matrix3x3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13746() { let _ = mk::<Quaternion<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13747() { let _ = mk::<Quaternion<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13748() { let _ = &mk::<Quaternion<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13749() { let _ = &mk::<Quaternion<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13750() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13751() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13752() { let _ = mk::<Quaternion<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13753() { let _ = mk::<Quaternion<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13754() { let _ = &mk::<Quaternion<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13755() { let _ = &mk::<Quaternion<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13756() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13757() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13758() { let _ = mk::<Quaternion<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13759() { let _ = mk::<Quaternion<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13760() { let _ = &mk::<Quaternion<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13761() { let _ = &mk::<Quaternion<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13762() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13763() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13764() { let _ = mk::<Quaternion<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13765() { let _ = mk::<Quaternion<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13766() { let _ = &mk::<Quaternion<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13767() { let _ = &mk::<Quaternion<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13768() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13769() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13770() { let _ = mk::<Quaternion<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13771() { let _ = mk::<Quaternion<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13772() { let _ = &mk::<Quaternion<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13773() { let _ = &mk::<Quaternion<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p13774() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13775() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p13776() { let _ = mk::<Quaternion<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p13777() { let _ = mk::<Quaternion<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p13778() { let _: Matrix4x4<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13779() { let _: Matrix4x4<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13780() { let _ = mk::<Quaternion<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13781() { let _ = mk::<Quaternion<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13782() { let _ = &mk::<Quaternion<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13783() { let _ = &mk::<Quaternion<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13784() { let mut x = mk::<Quaternion<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13785() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13786() { let _ = mk::<Quaternion<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13787() { let _ = mk::<Quaternion<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13788() { let _ = &mk::<Quaternion<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13789() { let _ = &mk::<Quaternion<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13790() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13791() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13792() { let _ = mk::<Quaternion<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13793() { let _ = mk::<Quaternion<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13794() { let _ = &mk::<Quaternion<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13795() { let _ = &mk::<Quaternion<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13796() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13797() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13798() { let _ = mk::<Quaternion<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13799() { let _ = mk::<Quaternion<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13800() { let _ = &mk::<Quaternion<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13801() { let _ = &mk::<Quaternion<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13802() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13803() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13804() { let _ = mk::<Quaternion<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13805() { let _ = mk::<Quaternion<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13806() { let _ = &mk::<Quaternion<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13807() { let _ = &mk::<Quaternion<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p13808() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13809() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p13810() { let _ = mk::<Quaternion<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p13811() { let _ = mk::<Quaternion<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p13812() { let _: RowVector3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13813() { let _: RowVector3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13814() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() + mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13815() { let _ = mk::<Quaternion<f64>>() + mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13816() { let _ = mk::<Quaternion<f32>>() + mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13817() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() + &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13818() { let _ = mk::<Quaternion<f64>>() + &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13819() { let _ = mk::<Quaternion<f32>>() + &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13820() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() + mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13821() { let _ = &mk::<Quaternion<f64>>() + mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13822() { let _ = &mk::<Quaternion<f32>>() + mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13823() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() + &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13824() { let _ = &mk::<Quaternion<f64>>() + &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13825() { let _ = &mk::<Quaternion<f32>>() + &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13826() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Quaternion<f64>>(); } // accept assigning-kinds
fn p13827() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13828() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Quaternion<f64>>(); } // accept assigning-kinds
fn p13829() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13830() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() - mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13831() { let _ = mk::<Quaternion<f64>>() - mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13832() { let _ = mk::<Quaternion<f32>>() - mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13833() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() - &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13834() { let _ = mk::<Quaternion<f64>>() - &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13835() { let _ = mk::<Quaternion<f32>>() - &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13836() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() - mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13837() { let _ = &mk::<Quaternion<f64>>() - mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13838() { let _ = &mk::<Quaternion<f32>>() - mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13839() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() - &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13840() { let _ = &mk::<Quaternion<f64>>() - &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13841() { let _ = &mk::<Quaternion<f32>>() - &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13842() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Quaternion<f64>>(); } // accept assigning-kinds
fn p13843() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13844() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Quaternion<f64>>(); } // accept assigning-kinds
fn p13845() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13846() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() * mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13847() { let _ = mk::<Quaternion<f64>>() * mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13848() { let _ = mk::<Quaternion<f32>>() * mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13849() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() * &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13850() { let _ = mk::<Quaternion<f64>>() * &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13851() { let _ = mk::<Quaternion<f32>>() * &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13852() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() * mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13853() { let _ = &mk::<Quaternion<f64>>() * mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13854() { let _ = &mk::<Quaternion<f32>>() * mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13855() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() * &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p13856() { let _ = &mk::<Quaternion<f64>>() * &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p13857() { let _ = &mk::<Quaternion<f32>>() * &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p13858() { let _ = mk::<Quaternion<f64>>() == mk::<Quaternion<f64>>(); } // accept equality-kinds
fn p13859() { let _: Quaternion<f64> = mk::<Quaternion<f64>>(); } // accept no-implicit-conversion
fn p13860() { let _: Quaternion<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13861() { let _ = mk::<Quaternion<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p13862() { let _ = mk::<Quaternion<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13863() { let _ = &mk::<Quaternion<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p13864() { let _ = &mk::<Quaternion<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13865() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13866() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13867() { let _ = mk::<Quaternion<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p13868() { let _ = mk::<Quaternion<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13869() { let _ = &mk::<Quaternion<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p13870() { let _ = &mk::<Quaternion<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13871() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13872() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13873() { let _ = mk::<Quaternion<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p13874() { let _ = mk::<Quaternion<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13875() { let _ = &mk::<Quaternion<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p13876() { let _ = &mk::<Quaternion<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13877() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13878() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13879() { let _ = mk::<Quaternion<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p13880() { let _ = mk::<Quaternion<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13881() { let _ = &mk::<Quaternion<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p13882() { let _ = &mk::<Quaternion<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13883() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13884() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13885() { let _ = mk::<Quaternion<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p13886() { let _ = mk::<Quaternion<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13887() { let _ = &mk::<Quaternion<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p13888() { let _ = &mk::<Quaternion<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p13889() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13890() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p13891() { let _ = mk::<Quaternion<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p13892() { let _ = mk::<Quaternion<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p13893() { let _: Complex<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13894() { let _: Complex<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13895() { let _ = mk::<Quaternion<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p13896() { let _ = mk::<Quaternion<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13897() { let _ = &mk::<Quaternion<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p13898() { let _ = &mk::<Quaternion<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13899() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13900() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13901() { let _ = mk::<Quaternion<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p13902() { let _ = mk::<Quaternion<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13903() { let _ = &mk::<Quaternion<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p13904() { let _ = &mk::<Quaternion<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13905() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13906() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13907() { let _ = mk::<Quaternion<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p13908() { let _ = mk::<Quaternion<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13909() { let _ = &mk::<Quaternion<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p13910() { let _ = &mk::<Quaternion<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13911() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13912() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13913() { let _ = mk::<Quaternion<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p13914() { let _ = mk::<Quaternion<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13915() { let _ = &mk::<Quaternion<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p13916() { let _ = &mk::<Quaternion<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13917() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13918() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13919() { let _ = mk::<Quaternion<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p13920() { let _ = mk::<Quaternion<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13921() { let _ = &mk::<Quaternion<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p13922() { let _ = &mk::<Quaternion<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p13923() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13924() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p13925() { let _ = mk::<Quaternion<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p13926() { let _ = mk::<Quaternion<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p13927() { let _: Radians<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13928() { let _: Radians<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13929() { let _ = mk::<Quaternion<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13930() { let _ = mk::<Quaternion<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13931() { let _ = &mk::<Quaternion<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13932() { let _ = &mk::<Quaternion<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13933() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13934() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13935() { let _ = mk::<Quaternion<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13936() { let _ = mk::<Quaternion<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13937() { let _ = &mk::<Quaternion<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13938() { let _ = &mk::<Quaternion<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13939() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13940() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13941() { let _ = mk::<Quaternion<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13942() { let _ = mk::<Quaternion<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13943() { let _ = &mk::<Quaternion<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13944() { let _ = &mk::<Quaternion<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13945() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13946() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13947() { let _ = mk::<Quaternion<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13948() { let _ = mk::<Quaternion<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13949() { let _ = &mk::<Quaternion<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13950() { let _ = &mk::<Quaternion<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13951() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13952() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13953() { let _ = mk::<Quaternion<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13954() { let _ = mk::<Quaternion<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13955() { let _ = &mk::<Quaternion<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13956() { let _ = &mk::<Quaternion<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p13957() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13958() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p13959() { let _ = mk::<Quaternion<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p13960() { let _ = mk::<Quaternion<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p13961() { let _: Degrees<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13962() { let _: Degrees<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p13963() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p13964() { let _ = mk::<Quaternion<f64>>() * mk::<f32>(); } // reject operator-precision
fn p13965() { let _ = mk::<Quaternion<f32>>() * mk::<f64>(); } // reject operator-precision
fn p13966() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() * &mk::<f64>(); } // accept operator-kinds
fn p13967() { let _ = mk::<Quaternion<f64>>() * &mk::<f32>(); } // reject operator-precision
fn p13968() { let _ = mk::<Quaternion<f32>>() * &mk::<f64>(); } // reject operator-precision
fn p13969() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p13970() { let _ = &mk::<Quaternion<f64>>() * mk::<f32>(); } // reject operator-precision
fn p13971() { let _ = &mk::<Quaternion<f32>>() * mk::<f64>(); } // reject operator-precision
fn p13972() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() * &mk::<f64>(); } // accept operator-kinds
fn p13973() { let _ = &mk::<Quaternion<f64>>() * &mk::<f32>(); } // reject operator-precision
fn p13974() { let _ = &mk::<Quaternion<f32>>() * &mk::<f64>(); } // reject operator-precision
fn p13975() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p13976() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p13977() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p13978() { let _ = mk::<Quaternion<f64>>() / mk::<f32>(); } // reject operator-precision
fn p13979() { let _ = mk::<Quaternion<f32>>() / mk::<f64>(); } // reject operator-precision
fn p13980() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() / &mk::<f64>(); } // accept operator-kinds
fn p13981() { let _ = mk::<Quaternion<f64>>() / &mk::<f32>(); } // reject operator-precision
fn p13982() { let _ = mk::<Quaternion<f32>>() / &mk::<f64>(); } // reject operator-precision
fn p13983() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p13984() { let _ = &mk::<Quaternion<f64>>() / mk::<f32>(); } // reject operator-precision
fn p13985() { let _ = &mk::<Quaternion<f32>>() / mk::<f64>(); } // reject operator-precision
fn p13986() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() / &mk::<f64>(); } // accept operator-kinds
fn p13987() { let _ = &mk::<Quaternion<f64>>() / &mk::<f32>(); } // reject operator-precision
fn p13988() { let _ = &mk::<Quaternion<f32>>() / &mk::<f64>(); } // reject operator-precision
fn p13989() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p13990() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p13991() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p13992() { let _ = mk::<Quaternion<f64>>() % mk::<f32>(); } // reject operator-precision
fn p13993() { let _ = mk::<Quaternion<f32>>() % mk::<f64>(); } // reject operator-precision
fn p13994() { let _: Quaternion<f64> = mk::<Quaternion<f64>>() % &mk::<f64>(); } // accept operator-kinds
fn p13995() { let _ = mk::<Quaternion<f64>>() % &mk::<f32>(); } // reject operator-precision
fn p13996() { let _ = mk::<Quaternion<f32>>() % &mk::<f64>(); } // reject operator-precision
fn p13997() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p13998() { let _ = &mk::<Quaternion<f64>>() % mk::<f32>(); } // reject operator-precision
fn p13999() { let _ = &mk::<Quaternion<f32>>() % mk::<f64>(); } // reject operator-precision
fn p14000() { let _: Quaternion<f64> = &mk::<Quaternion<f64>>() % &mk::<f64>(); } // accept operator-kinds
fn p14001() { let _ = &mk::<Quaternion<f64>>() % &mk::<f32>(); } // reject operator-precision
fn p14002() { let _ = &mk::<Quaternion<f32>>() % &mk::<f64>(); } // reject operator-precision
fn p14003() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p14004() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p14005() { let _ = mk::<Quaternion<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p14006() { let _ = mk::<Quaternion<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p14007() { let _: f64 = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14008() { let _: f32 = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14009() { let _ = mk::<Quaternion<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14010() { let _ = mk::<Quaternion<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14011() { let _ = &mk::<Quaternion<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14012() { let _ = &mk::<Quaternion<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14013() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14014() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14015() { let _ = mk::<Quaternion<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14016() { let _ = mk::<Quaternion<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14017() { let _ = &mk::<Quaternion<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14018() { let _ = &mk::<Quaternion<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14019() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14020() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14021() { let _ = mk::<Quaternion<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14022() { let _ = mk::<Quaternion<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14023() { let _ = &mk::<Quaternion<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14024() { let _ = &mk::<Quaternion<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14025() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14026() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14027() { let _ = mk::<Quaternion<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14028() { let _ = mk::<Quaternion<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14029() { let _ = &mk::<Quaternion<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14030() { let _ = &mk::<Quaternion<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14031() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14032() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14033() { let _ = mk::<Quaternion<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14034() { let _ = mk::<Quaternion<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14035() { let _ = &mk::<Quaternion<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14036() { let _ = &mk::<Quaternion<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14037() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14038() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14039() { let _ = mk::<Quaternion<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p14040() { let _ = mk::<Quaternion<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p14041() { let _: Euler<Radians<f64>> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14042() { let _: Euler<Radians<f32>> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14043() { let _ = mk::<Quaternion<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14044() { let _ = mk::<Quaternion<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14045() { let _ = &mk::<Quaternion<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14046() { let _ = &mk::<Quaternion<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14047() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14048() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14049() { let _ = mk::<Quaternion<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14050() { let _ = mk::<Quaternion<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14051() { let _ = &mk::<Quaternion<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14052() { let _ = &mk::<Quaternion<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14053() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14054() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14055() { let _ = mk::<Quaternion<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14056() { let _ = mk::<Quaternion<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14057() { let _ = &mk::<Quaternion<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14058() { let _ = &mk::<Quaternion<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14059() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14060() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14061() { let _ = mk::<Quaternion<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14062() { let _ = mk::<Quaternion<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14063() { let _ = &mk::<Quaternion<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14064() { let _ = &mk::<Quaternion<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14065() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14066() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14067() { let _ = mk::<Quaternion<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14068() { let _ = mk::<Quaternion<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14069() { let _ = &mk::<Quaternion<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14070() { let _ = &mk::<Quaternion<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14071() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14072() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14073() { let _ = mk::<Quaternion<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p14074() { let _ = mk::<Quaternion<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p14075() { let _: Unit<Vector3<f64>> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14076() { let _: Unit<Vector3<f32>> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14077() { let _ = mk::<Quaternion<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14078() { let _ = mk::<Quaternion<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14079() { let _ = &mk::<Quaternion<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14080() { let _ = &mk::<Quaternion<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14081() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14082() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14083() { let _ = mk::<Quaternion<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14084() { let _ = mk::<Quaternion<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14085() { let _ = &mk::<Quaternion<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14086() { let _ = &mk::<Quaternion<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14087() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14088() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14089() { let _ = mk::<Quaternion<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p14090() { let _: Unit<Quaternion<f64>> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14091() { let _: Unit<Quaternion<f32>> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14092() { let _ = mk::<Quaternion<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14093() { let _ = mk::<Quaternion<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14094() { let _ = &mk::<Quaternion<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14095() { let _ = &mk::<Quaternion<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14096() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14097() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14098() { let _ = mk::<Quaternion<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14099() { let _ = mk::<Quaternion<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14100() { let _ = &mk::<Quaternion<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14101() { let _ = &mk::<Quaternion<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14102() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14103() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14104() { let _ = mk::<Quaternion<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14105() { let _ = mk::<Quaternion<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14106() { let _ = &mk::<Quaternion<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14107() { let _ = &mk::<Quaternion<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14108() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14109() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14110() { let _ = mk::<Quaternion<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14111() { let _ = mk::<Quaternion<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14112() { let _ = &mk::<Quaternion<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14113() { let _ = &mk::<Quaternion<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14114() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14115() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14116() { let _ = mk::<Quaternion<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14117() { let _ = mk::<Quaternion<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14118() { let _ = &mk::<Quaternion<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14119() { let _ = &mk::<Quaternion<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14120() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14121() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p14122() { let _ = mk::<Quaternion<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p14123() { let _ = mk::<Quaternion<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p14124() { let _: Rotation3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14125() { let _: Rotation3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14126() { let _ = mk::<Quaternion<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14127() { let _ = mk::<Quaternion<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14128() { let _ = &mk::<Quaternion<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14129() { let _ = &mk::<Quaternion<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14130() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14131() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14132() { let _ = mk::<Quaternion<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14133() { let _ = mk::<Quaternion<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14134() { let _ = &mk::<Quaternion<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14135() { let _ = &mk::<Quaternion<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14136() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14137() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14138() { let _ = mk::<Quaternion<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14139() { let _ = mk::<Quaternion<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14140() { let _ = &mk::<Quaternion<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14141() { let _ = &mk::<Quaternion<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14142() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14143() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14144() { let _ = mk::<Quaternion<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14145() { let _ = mk::<Quaternion<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14146() { let _ = &mk::<Quaternion<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14147() { let _ = &mk::<Quaternion<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14148() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14149() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14150() { let _ = mk::<Quaternion<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14151() { let _ = mk::<Quaternion<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14152() { let _ = &mk::<Quaternion<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14153() { let _ = &mk::<Quaternion<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p14154() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14155() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p14156() { let _ = mk::<Quaternion<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p14157() { let _ = mk::<Quaternion<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p14158() { let _: Translation3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14159() { let _: Translation3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14160() { let _ = mk::<Quaternion<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14161() { let _ = mk::<Quaternion<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14162() { let _ = &mk::<Quaternion<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14163() { let _ = &mk::<Quaternion<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14164() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14165() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14166() { let _ = mk::<Quaternion<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14167() { let _ = mk::<Quaternion<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14168() { let _ = &mk::<Quaternion<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14169() { let _ = &mk::<Quaternion<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14170() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14171() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14172() { let _ = mk::<Quaternion<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14173() { let _ = mk::<Quaternion<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14174() { let _ = &mk::<Quaternion<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14175() { let _ = &mk::<Quaternion<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14176() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14177() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14178() { let _ = mk::<Quaternion<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14179() { let _ = mk::<Quaternion<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14180() { let _ = &mk::<Quaternion<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14181() { let _ = &mk::<Quaternion<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14182() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14183() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14184() { let _ = mk::<Quaternion<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14185() { let _ = mk::<Quaternion<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14186() { let _ = &mk::<Quaternion<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14187() { let _ = &mk::<Quaternion<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p14188() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14189() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p14190() { let _ = mk::<Quaternion<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p14191() { let _ = mk::<Quaternion<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p14192() { let _: Scale3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14193() { let _: Scale3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14194() { let _ = mk::<Quaternion<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14195() { let _ = mk::<Quaternion<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14196() { let _ = &mk::<Quaternion<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14197() { let _ = &mk::<Quaternion<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14198() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14199() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14200() { let _ = mk::<Quaternion<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14201() { let _ = mk::<Quaternion<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14202() { let _ = &mk::<Quaternion<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14203() { let _ = &mk::<Quaternion<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14204() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14205() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14206() { let _ = mk::<Quaternion<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14207() { let _ = mk::<Quaternion<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14208() { let _ = &mk::<Quaternion<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14209() { let _ = &mk::<Quaternion<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14210() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14211() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14212() { let _ = mk::<Quaternion<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14213() { let _ = mk::<Quaternion<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14214() { let _ = &mk::<Quaternion<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14215() { let _ = &mk::<Quaternion<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14216() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14217() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14218() { let _ = mk::<Quaternion<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14219() { let _ = mk::<Quaternion<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14220() { let _ = &mk::<Quaternion<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14221() { let _ = &mk::<Quaternion<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p14222() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14223() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p14224() { let _ = mk::<Quaternion<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p14225() { let _ = mk::<Quaternion<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p14226() { let _: Shear3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14227() { let _: Shear3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14228() { let _ = mk::<Quaternion<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14229() { let _ = mk::<Quaternion<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14230() { let _ = &mk::<Quaternion<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14231() { let _ = &mk::<Quaternion<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14232() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14233() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14234() { let _ = mk::<Quaternion<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14235() { let _ = mk::<Quaternion<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14236() { let _ = &mk::<Quaternion<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14237() { let _ = &mk::<Quaternion<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14238() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14239() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14240() { let _ = mk::<Quaternion<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14241() { let _ = mk::<Quaternion<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14242() { let _ = &mk::<Quaternion<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14243() { let _ = &mk::<Quaternion<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14244() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14245() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14246() { let _ = mk::<Quaternion<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14247() { let _ = mk::<Quaternion<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14248() { let _ = &mk::<Quaternion<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14249() { let _ = &mk::<Quaternion<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14250() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14251() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14252() { let _ = mk::<Quaternion<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14253() { let _ = mk::<Quaternion<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14254() { let _ = &mk::<Quaternion<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14255() { let _ = &mk::<Quaternion<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p14256() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14257() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p14258() { let _ = mk::<Quaternion<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p14259() { let _ = mk::<Quaternion<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p14260() { let _: Reflection3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14261() { let _: Reflection3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14262() { let _ = mk::<Quaternion<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14263() { let _ = mk::<Quaternion<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14264() { let _ = &mk::<Quaternion<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14265() { let _ = &mk::<Quaternion<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14266() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14267() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14268() { let _ = mk::<Quaternion<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14269() { let _ = mk::<Quaternion<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14270() { let _ = &mk::<Quaternion<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14271() { let _ = &mk::<Quaternion<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14272() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14273() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14274() { let _ = mk::<Quaternion<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14275() { let _ = mk::<Quaternion<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14276() { let _ = &mk::<Quaternion<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14277() { let _ = &mk::<Quaternion<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14278() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14279() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14280() { let _ = mk::<Quaternion<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14281() { let _ = mk::<Quaternion<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14282() { let _ = &mk::<Quaternion<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14283() { let _ = &mk::<Quaternion<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14284() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14285() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14286() { let _ = mk::<Quaternion<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14287() { let _ = mk::<Quaternion<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14288() { let _ = &mk::<Quaternion<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14289() { let _ = &mk::<Quaternion<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p14290() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14291() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p14292() { let _ = mk::<Quaternion<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p14293() { let _ = mk::<Quaternion<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p14294() { let _: Isometry3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14295() { let _: Isometry3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14296() { let _ = mk::<Quaternion<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14297() { let _ = mk::<Quaternion<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14298() { let _ = &mk::<Quaternion<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14299() { let _ = &mk::<Quaternion<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14300() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14301() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14302() { let _ = mk::<Quaternion<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14303() { let _ = mk::<Quaternion<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14304() { let _ = &mk::<Quaternion<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14305() { let _ = &mk::<Quaternion<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14306() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14307() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14308() { let _ = mk::<Quaternion<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14309() { let _ = mk::<Quaternion<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14310() { let _ = &mk::<Quaternion<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14311() { let _ = &mk::<Quaternion<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14312() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14313() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14314() { let _ = mk::<Quaternion<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14315() { let _ = mk::<Quaternion<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14316() { let _ = &mk::<Quaternion<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14317() { let _ = &mk::<Quaternion<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14318() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14319() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14320() { let _ = mk::<Quaternion<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14321() { let _ = mk::<Quaternion<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14322() { let _ = &mk::<Quaternion<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14323() { let _ = &mk::<Quaternion<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p14324() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14325() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p14326() { let _ = mk::<Quaternion<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p14327() { let _ = mk::<Quaternion<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p14328() { let _: Similarity3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14329() { let _: Similarity3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14330() { let _ = mk::<Quaternion<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14331() { let _ = mk::<Quaternion<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14332() { let _ = &mk::<Quaternion<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14333() { let _ = &mk::<Quaternion<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14334() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14335() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14336() { let _ = mk::<Quaternion<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14337() { let _ = mk::<Quaternion<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14338() { let _ = &mk::<Quaternion<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14339() { let _ = &mk::<Quaternion<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14340() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14341() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14342() { let _ = mk::<Quaternion<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14343() { let _ = mk::<Quaternion<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14344() { let _ = &mk::<Quaternion<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14345() { let _ = &mk::<Quaternion<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14346() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14347() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14348() { let _ = mk::<Quaternion<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14349() { let _ = mk::<Quaternion<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14350() { let _ = &mk::<Quaternion<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14351() { let _ = &mk::<Quaternion<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14352() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14353() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14354() { let _ = mk::<Quaternion<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14355() { let _ = mk::<Quaternion<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14356() { let _ = &mk::<Quaternion<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14357() { let _ = &mk::<Quaternion<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p14358() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14359() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p14360() { let _ = mk::<Quaternion<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p14361() { let _ = mk::<Quaternion<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p14362() { let _: Transform3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14363() { let _: Transform3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14364() { let _ = mk::<Quaternion<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14365() { let _ = mk::<Quaternion<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14366() { let _ = &mk::<Quaternion<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14367() { let _ = &mk::<Quaternion<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14368() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14369() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14370() { let _ = mk::<Quaternion<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14371() { let _ = mk::<Quaternion<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14372() { let _ = &mk::<Quaternion<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14373() { let _ = &mk::<Quaternion<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14374() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14375() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14376() { let _ = mk::<Quaternion<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14377() { let _ = mk::<Quaternion<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14378() { let _ = &mk::<Quaternion<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14379() { let _ = &mk::<Quaternion<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14380() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14381() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14382() { let _ = mk::<Quaternion<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14383() { let _ = mk::<Quaternion<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14384() { let _ = &mk::<Quaternion<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14385() { let _ = &mk::<Quaternion<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14386() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14387() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14388() { let _ = mk::<Quaternion<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14389() { let _ = mk::<Quaternion<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14390() { let _ = &mk::<Quaternion<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14391() { let _ = &mk::<Quaternion<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p14392() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14393() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p14394() { let _ = mk::<Quaternion<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p14395() { let _ = mk::<Quaternion<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p14396() { let _: Perspective3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14397() { let _: Perspective3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14398() { let _ = mk::<Quaternion<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14399() { let _ = mk::<Quaternion<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14400() { let _ = &mk::<Quaternion<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14401() { let _ = &mk::<Quaternion<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14402() { let mut x = mk::<Quaternion<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14403() { let mut x = mk::<Quaternion<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14404() { let _ = mk::<Quaternion<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14405() { let _ = mk::<Quaternion<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14406() { let _ = &mk::<Quaternion<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14407() { let _ = &mk::<Quaternion<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14408() { let mut x = mk::<Quaternion<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14409() { let mut x = mk::<Quaternion<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14410() { let _ = mk::<Quaternion<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14411() { let _ = mk::<Quaternion<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14412() { let _ = &mk::<Quaternion<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14413() { let _ = &mk::<Quaternion<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14414() { let mut x = mk::<Quaternion<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14415() { let mut x = mk::<Quaternion<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14416() { let _ = mk::<Quaternion<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14417() { let _ = mk::<Quaternion<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14418() { let _ = &mk::<Quaternion<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14419() { let _ = &mk::<Quaternion<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14420() { let mut x = mk::<Quaternion<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14421() { let mut x = mk::<Quaternion<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14422() { let _ = mk::<Quaternion<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14423() { let _ = mk::<Quaternion<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14424() { let _ = &mk::<Quaternion<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14425() { let _ = &mk::<Quaternion<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p14426() { let mut x = mk::<Quaternion<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14427() { let mut x = mk::<Quaternion<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p14428() { let _ = mk::<Quaternion<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p14429() { let _ = mk::<Quaternion<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p14430() { let _: Orthographic3<f64> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14431() { let _: Orthographic3<f32> = mk::<Quaternion<f64>>(); } // reject no-implicit-conversion
fn p14432() { let _: Quaternion<f64> = -mk::<Quaternion<f64>>(); } // accept negation
fn p14433() { let _: Quaternion<f64> = -&mk::<Quaternion<f64>>(); } // accept negation
fn p14434() { let _ = !mk::<Quaternion<f64>>(); } // reject negation
fn p14435() { let _ = !&mk::<Quaternion<f64>>(); } // reject negation
fn p14436() { let _ = mk::<Complex<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14437() { let _ = mk::<Complex<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14438() { let _ = &mk::<Complex<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14439() { let _ = &mk::<Complex<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14440() { let mut x = mk::<Complex<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14441() { let mut x = mk::<Complex<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14442() { let _ = mk::<Complex<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14443() { let _ = mk::<Complex<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14444() { let _ = &mk::<Complex<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14445() { let _ = &mk::<Complex<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14446() { let mut x = mk::<Complex<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14447() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14448() { let _ = mk::<Complex<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14449() { let _ = mk::<Complex<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14450() { let _ = &mk::<Complex<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14451() { let _ = &mk::<Complex<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14452() { let mut x = mk::<Complex<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14453() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14454() { let _ = mk::<Complex<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14455() { let _ = mk::<Complex<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14456() { let _ = &mk::<Complex<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14457() { let _ = &mk::<Complex<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14458() { let mut x = mk::<Complex<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14459() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14460() { let _ = mk::<Complex<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14461() { let _ = mk::<Complex<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14462() { let _ = &mk::<Complex<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14463() { let _ = &mk::<Complex<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p14464() { let mut x = mk::<Complex<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14465() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p14466() { let _ = mk::<Complex<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p14467() { let _ = mk::<Complex<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p14468() { let _: Vector3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14469() { let _: Vector3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14470() { let _ = mk::<Complex<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14471() { let _ = mk::<Complex<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14472() { let _ = &mk::<Complex<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14473() { let _ = &mk::<Complex<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14474() { let mut x = mk::<Complex<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14475() { let mut x = mk::<Complex<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14476() { let _ = mk::<Complex<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14477() { let _ = mk::<Complex<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14478() { let _ = &mk::<Complex<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14479() { let _ = &mk::<Complex<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14480() { let mut x = mk::<Complex<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14481() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14482() { let _ = mk::<Complex<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14483() { let _ = mk::<Complex<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14484() { let _ = &mk::<Complex<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14485() { let _ = &mk::<Complex<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14486() { let mut x = mk::<Complex<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14487() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14488() { let _ = mk::<Complex<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14489() { let _ = mk::<Complex<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14490() { let _ = &mk::<Complex<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14491() { let _ = &mk::<Complex<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14492() { let mut x = mk::<Complex<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14493() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14494() { let _ = mk::<Complex<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14495() { let _ = mk::<Complex<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14496() { let _ = &mk::<Complex<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14497() { let _ = &mk::<Complex<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p14498() { let mut x = mk::<Complex<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14499() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p14500() { let _ = mk::<Complex<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p14501() { let _ = mk::<Complex<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p14502() { let _: Vector4<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14503() { let _: Vector4<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14504() { let _ = mk::<Complex<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p14505() { let _ = mk::<Complex<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14506() { let _ = &mk::<Complex<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p14507() { let _ = &mk::<Complex<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14508() { let mut x = mk::<Complex<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14509() { let mut x = mk::<Complex<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14510() { let _ = mk::<Complex<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p14511() { let _ = mk::<Complex<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14512() { let _ = &mk::<Complex<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p14513() { let _ = &mk::<Complex<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14514() { let mut x = mk::<Complex<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14515() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14516() { let _ = mk::<Complex<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p14517() { let _ = mk::<Complex<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14518() { let _ = &mk::<Complex<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p14519() { let _ = &mk::<Complex<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14520() { let mut x = mk::<Complex<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14521() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14522() { let _ = mk::<Complex<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p14523() { let _ = mk::<Complex<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14524() { let _ = &mk::<Complex<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p14525() { let _ = &mk::<Complex<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14526() { let mut x = mk::<Complex<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14527() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14528() { let _ = mk::<Complex<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p14529() { let _ = mk::<Complex<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14530() { let _ = &mk::<Complex<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p14531() { let _ = &mk::<Complex<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p14532() { let mut x = mk::<Complex<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14533() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p14534() { let _ = mk::<Complex<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p14535() { let _ = mk::<Complex<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p14536() { let _: Point3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14537() { let _: Point3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14538() { let _ = mk::<Complex<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14539() { let _ = mk::<Complex<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14540() { let _ = &mk::<Complex<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14541() { let _ = &mk::<Complex<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14542() { let mut x = mk::<Complex<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14543() { let mut x = mk::<Complex<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14544() { let _ = mk::<Complex<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14545() { let _ = mk::<Complex<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14546() { let _ = &mk::<Complex<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14547() { let _ = &mk::<Complex<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14548() { let mut x = mk::<Complex<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14549() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14550() { let _ = mk::<Complex<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14551() { let _ = mk::<Complex<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14552() { let _ = &mk::<Complex<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14553() { let _ = &mk::<Complex<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14554() { let mut x = mk::<Complex<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14555() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14556() { let _ = mk::<Complex<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14557() { let _ = mk::<Complex<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14558() { let _ = &mk::<Complex<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14559() { let _ = &mk::<Complex<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14560() { let mut x = mk::<Complex<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14561() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14562() { let _ = mk::<Complex<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14563() { let _ = mk::<Complex<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14564() { let _ = &mk::<Complex<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14565() { let _ = &mk::<Complex<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p14566() { let mut x = mk::<Complex<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14567() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p14568() { let _ = mk::<Complex<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p14569() { let _ = mk::<Complex<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p14570() { let _: Matrix3x3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14571() { let _: Matrix3x3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14572() { let _ = mk::<Complex<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14573() { let _ = mk::<Complex<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14574() { let _ = &mk::<Complex<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14575() { let _ = &mk::<Complex<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14576() { let mut x = mk::<Complex<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14577() { let mut x = mk::<Complex<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14578() { let _ = mk::<Complex<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14579() { let _ = mk::<Complex<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14580() { let _ = &mk::<Complex<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14581() { let _ = &mk::<Complex<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14582() { let mut x = mk::<Complex<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14583() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14584() { let _ = mk::<Complex<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14585() { let _ = mk::<Complex<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14586() { let _ = &mk::<Complex<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14587() { let _ = &mk::<Complex<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14588() { let mut x = mk::<Complex<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14589() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14590() { let _ = mk::<Complex<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14591() { let _ = mk::<Complex<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14592() { let _ = &mk::<Complex<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14593() { let _ = &mk::<Complex<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14594() { let mut x = mk::<Complex<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14595() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14596() { let _ = mk::<Complex<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14597() { let _ = mk::<Complex<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14598() { let _ = &mk::<Complex<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14599() { let _ = &mk::<Complex<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p14600() { let mut x = mk::<Complex<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14601() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p14602() { let _ = mk::<Complex<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p14603() { let _ = mk::<Complex<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p14604() { let _: Matrix4x4<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14605() { let _: Matrix4x4<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14606() { let _ = mk::<Complex<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14607() { let _ = mk::<Complex<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14608() { let _ = &mk::<Complex<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14609() { let _ = &mk::<Complex<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14610() { let mut x = mk::<Complex<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14611() { let mut x = mk::<Complex<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14612() { let _ = mk::<Complex<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14613() { let _ = mk::<Complex<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14614() { let _ = &mk::<Complex<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14615() { let _ = &mk::<Complex<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14616() { let mut x = mk::<Complex<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14617() { let mut x = mk::<Complex<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14618() { let _ = mk::<Complex<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14619() { let _ = mk::<Complex<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14620() { let _ = &mk::<Complex<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14621() { let _ = &mk::<Complex<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14622() { let mut x = mk::<Complex<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14623() { let mut x = mk::<Complex<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14624() { let _ = mk::<Complex<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14625() { let _ = mk::<Complex<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14626() { let _ = &mk::<Complex<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14627() { let _ = &mk::<Complex<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14628() { let mut x = mk::<Complex<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14629() { let mut x = mk::<Complex<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14630() { let _ = mk::<Complex<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14631() { let _ = mk::<Complex<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14632() { let _ = &mk::<Complex<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14633() { let _ = &mk::<Complex<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p14634() { let mut x = mk::<Complex<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14635() { let mut x = mk::<Complex<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p14636() { let _ = mk::<Complex<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p14637() { let _ = mk::<Complex<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p14638() { let _: RowVector3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14639() { let _: RowVector3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14640() { let _ = mk::<Complex<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14641() { let _ = mk::<Complex<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14642() { let _ = &mk::<Complex<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14643() { let _ = &mk::<Complex<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14644() { let mut x = mk::<Complex<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14645() { let mut x = mk::<Complex<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14646() { let _ = mk::<Complex<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14647() { let _ = mk::<Complex<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14648() { let _ = &mk::<Complex<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14649() { let _ = &mk::<Complex<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14650() { let mut x = mk::<Complex<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14651() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14652() { let _ = mk::<Complex<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14653() { let _ = mk::<Complex<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14654() { let _ = &mk::<Complex<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14655() { let _ = &mk::<Complex<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14656() { let mut x = mk::<Complex<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14657() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14658() { let _ = mk::<Complex<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14659() { let _ = mk::<Complex<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14660() { let _ = &mk::<Complex<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14661() { let _ = &mk::<Complex<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14662() { let mut x = mk::<Complex<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14663() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14664() { let _ = mk::<Complex<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14665() { let _ = mk::<Complex<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14666() { let _ = &mk::<Complex<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14667() { let _ = &mk::<Complex<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p14668() { let mut x = mk::<Complex<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14669() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p14670() { let _ = mk::<Complex<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p14671() { let _ = mk::<Complex<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p14672() { let _: Quaternion<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14673() { let _: Quaternion<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14674() { let _: Complex<f64> = mk::<Complex<f64>>() + mk::<Complex<f64>>(); } // accept operator-kinds
fn p14675() { let _ = mk::<Complex<f64>>() + mk::<Complex<f32>>(); } // reject operator-precision
fn p14676() { let _ = mk::<Complex<f32>>() + mk::<Complex<f64>>(); } // reject operator-precision
fn p14677() { let _: Complex<f64> = mk::<Complex<f64>>() + &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14678() { let _ = mk::<Complex<f64>>() + &mk::<Complex<f32>>(); } // reject operator-precision
fn p14679() { let _ = mk::<Complex<f32>>() + &mk::<Complex<f64>>(); } // reject operator-precision
fn p14680() { let _: Complex<f64> = &mk::<Complex<f64>>() + mk::<Complex<f64>>(); } // accept operator-kinds
fn p14681() { let _ = &mk::<Complex<f64>>() + mk::<Complex<f32>>(); } // reject operator-precision
fn p14682() { let _ = &mk::<Complex<f32>>() + mk::<Complex<f64>>(); } // reject operator-precision
fn p14683() { let _: Complex<f64> = &mk::<Complex<f64>>() + &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14684() { let _ = &mk::<Complex<f64>>() + &mk::<Complex<f32>>(); } // reject operator-precision
fn p14685() { let _ = &mk::<Complex<f32>>() + &mk::<Complex<f64>>(); } // reject operator-precision
fn p14686() { let mut x = mk::<Complex<f64>>(); x += mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14687() { let mut x = mk::<Complex<f64>>(); x += mk::<Complex<f32>>(); } // reject operator-precision
fn p14688() { let mut x = mk::<Complex<f64>>(); x += &mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14689() { let mut x = mk::<Complex<f64>>(); x += &mk::<Complex<f32>>(); } // reject operator-precision
fn p14690() { let _: Complex<f64> = mk::<Complex<f64>>() - mk::<Complex<f64>>(); } // accept operator-kinds
fn p14691() { let _ = mk::<Complex<f64>>() - mk::<Complex<f32>>(); } // reject operator-precision
fn p14692() { let _ = mk::<Complex<f32>>() - mk::<Complex<f64>>(); } // reject operator-precision
fn p14693() { let _: Complex<f64> = mk::<Complex<f64>>() - &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14694() { let _ = mk::<Complex<f64>>() - &mk::<Complex<f32>>(); } // reject operator-precision
fn p14695() { let _ = mk::<Complex<f32>>() - &mk::<Complex<f64>>(); } // reject operator-precision
fn p14696() { let _: Complex<f64> = &mk::<Complex<f64>>() - mk::<Complex<f64>>(); } // accept operator-kinds
fn p14697() { let _ = &mk::<Complex<f64>>() - mk::<Complex<f32>>(); } // reject operator-precision
fn p14698() { let _ = &mk::<Complex<f32>>() - mk::<Complex<f64>>(); } // reject operator-precision
fn p14699() { let _: Complex<f64> = &mk::<Complex<f64>>() - &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14700() { let _ = &mk::<Complex<f64>>() - &mk::<Complex<f32>>(); } // reject operator-precision
fn p14701() { let _ = &mk::<Complex<f32>>() - &mk::<Complex<f64>>(); } // reject operator-precision
fn p14702() { let mut x = mk::<Complex<f64>>(); x -= mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14703() { let mut x = mk::<Complex<f64>>(); x -= mk::<Complex<f32>>(); } // reject operator-precision
fn p14704() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14705() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Complex<f32>>(); } // reject operator-precision
fn p14706() { let _: Complex<f64> = mk::<Complex<f64>>() * mk::<Complex<f64>>(); } // accept operator-kinds
fn p14707() { let _ = mk::<Complex<f64>>() * mk::<Complex<f32>>(); } // reject operator-precision
fn p14708() { let _ = mk::<Complex<f32>>() * mk::<Complex<f64>>(); } // reject operator-precision
fn p14709() { let _: Complex<f64> = mk::<Complex<f64>>() * &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14710() { let _ = mk::<Complex<f64>>() * &mk::<Complex<f32>>(); } // reject operator-precision
fn p14711() { let _ = mk::<Complex<f32>>() * &mk::<Complex<f64>>(); } // reject operator-precision
fn p14712() { let _: Complex<f64> = &mk::<Complex<f64>>() * mk::<Complex<f64>>(); } // accept operator-kinds
fn p14713() { let _ = &mk::<Complex<f64>>() * mk::<Complex<f32>>(); } // reject operator-precision
fn p14714() { let _ = &mk::<Complex<f32>>() * mk::<Complex<f64>>(); } // reject operator-precision
fn p14715() { let _: Complex<f64> = &mk::<Complex<f64>>() * &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14716() { let _ = &mk::<Complex<f64>>() * &mk::<Complex<f32>>(); } // reject operator-precision
fn p14717() { let _ = &mk::<Complex<f32>>() * &mk::<Complex<f64>>(); } // reject operator-precision
fn p14718() { let mut x = mk::<Complex<f64>>(); x *= mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14719() { let mut x = mk::<Complex<f64>>(); x *= mk::<Complex<f32>>(); } // reject operator-precision
fn p14720() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14721() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Complex<f32>>(); } // reject operator-precision
fn p14722() { let _: Complex<f64> = mk::<Complex<f64>>() / mk::<Complex<f64>>(); } // accept operator-kinds
fn p14723() { let _ = mk::<Complex<f64>>() / mk::<Complex<f32>>(); } // reject operator-precision
fn p14724() { let _ = mk::<Complex<f32>>() / mk::<Complex<f64>>(); } // reject operator-precision
fn p14725() { let _: Complex<f64> = mk::<Complex<f64>>() / &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14726() { let _ = mk::<Complex<f64>>() / &mk::<Complex<f32>>(); } // reject operator-precision
fn p14727() { let _ = mk::<Complex<f32>>() / &mk::<Complex<f64>>(); } // reject operator-precision
fn p14728() { let _: Complex<f64> = &mk::<Complex<f64>>() / mk::<Complex<f64>>(); } // accept operator-kinds
fn p14729() { let _ = &mk::<Complex<f64>>() / mk::<Complex<f32>>(); } // reject operator-precision
fn p14730() { let _ = &mk::<Complex<f32>>() / mk::<Complex<f64>>(); } // reject operator-precision
fn p14731() { let _: Complex<f64> = &mk::<Complex<f64>>() / &mk::<Complex<f64>>(); } // accept operator-kinds
fn p14732() { let _ = &mk::<Complex<f64>>() / &mk::<Complex<f32>>(); } // reject operator-precision
fn p14733() { let _ = &mk::<Complex<f32>>() / &mk::<Complex<f64>>(); } // reject operator-precision
fn p14734() { let mut x = mk::<Complex<f64>>(); x /= mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14735() { let mut x = mk::<Complex<f64>>(); x /= mk::<Complex<f32>>(); } // reject operator-precision
fn p14736() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Complex<f64>>(); } // accept assigning-kinds
fn p14737() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Complex<f32>>(); } // reject operator-precision
fn p14738() { let _ = mk::<Complex<f64>>() == mk::<Complex<f64>>(); } // accept equality-kinds
fn p14739() { let _: Complex<f64> = mk::<Complex<f64>>(); } // accept no-implicit-conversion
fn p14740() { let _: Complex<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14741() { let _ = mk::<Complex<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p14742() { let _ = mk::<Complex<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14743() { let _ = &mk::<Complex<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p14744() { let _ = &mk::<Complex<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14745() { let mut x = mk::<Complex<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14746() { let mut x = mk::<Complex<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14747() { let _ = mk::<Complex<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p14748() { let _ = mk::<Complex<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14749() { let _ = &mk::<Complex<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p14750() { let _ = &mk::<Complex<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14751() { let mut x = mk::<Complex<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14752() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14753() { let _ = mk::<Complex<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p14754() { let _ = mk::<Complex<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14755() { let _ = &mk::<Complex<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p14756() { let _ = &mk::<Complex<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14757() { let mut x = mk::<Complex<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14758() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14759() { let _ = mk::<Complex<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p14760() { let _ = mk::<Complex<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14761() { let _ = &mk::<Complex<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p14762() { let _ = &mk::<Complex<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14763() { let mut x = mk::<Complex<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14764() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14765() { let _ = mk::<Complex<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p14766() { let _ = mk::<Complex<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14767() { let _ = &mk::<Complex<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p14768() { let _ = &mk::<Complex<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p14769() { let mut x = mk::<Complex<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14770() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p14771() { let _ = mk::<Complex<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p14772() { let _ = mk::<Complex<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p14773() { let _: Radians<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14774() { let _: Radians<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14775() { let _ = mk::<Complex<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14776() { let _ = mk::<Complex<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14777() { let _ = &mk::<Complex<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14778() { let _ = &mk::<Complex<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14779() { let mut x = mk::<Complex<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14780() { let mut x = mk::<Complex<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14781() { let _ = mk::<Complex<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14782() { let _ = mk::<Complex<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14783() { let _ = &mk::<Complex<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14784() { let _ = &mk::<Complex<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14785() { let mut x = mk::<Complex<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14786() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14787() { let _ = mk::<Complex<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14788() { let _ = mk::<Complex<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14789() { let _ = &mk::<Complex<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14790() { let _ = &mk::<Complex<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14791() { let mut x = mk::<Complex<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14792() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14793() { let _ = mk::<Complex<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14794() { let _ = mk::<Complex<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14795() { let _ = &mk::<Complex<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14796() { let _ = &mk::<Complex<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14797() { let mut x = mk::<Complex<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14798() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14799() { let _ = mk::<Complex<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14800() { let _ = mk::<Complex<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14801() { let _ = &mk::<Complex<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14802() { let _ = &mk::<Complex<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p14803() { let mut x = mk::<Complex<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14804() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p14805() { let _ = mk::<Complex<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p14806() { let _ = mk::<Complex<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p14807() { let _: Degrees<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14808() { let _: Degrees<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14809() { let _: Complex<f64> = mk::<Complex<f64>>() + mk::<f64>(); } // accept operator-kinds
fn p14810() { let _ = mk::<Complex<f64>>() + mk::<f32>(); } // reject operator-precision
fn p14811() { let _ = mk::<Complex<f32>>() + mk::<f64>(); } // reject operator-precision
fn p14812() { let _: Complex<f64> = mk::<Complex<f64>>() + &mk::<f64>(); } // accept operator-kinds
fn p14813() { let _ = mk::<Complex<f64>>() + &mk::<f32>(); } // reject operator-precision
fn p14814() { let _ = mk::<Complex<f32>>() + &mk::<f64>(); } // reject operator-precision
fn p14815() { let _: Complex<f64> = &mk::<Complex<f64>>() + mk::<f64>(); } // accept operator-kinds
fn p14816() { let _ = &mk::<Complex<f64>>() + mk::<f32>(); } // reject operator-precision
fn p14817() { let _ = &mk::<Complex<f32>>() + mk::<f64>(); } // reject operator-precision
fn p14818() { let _: Complex<f64> = &mk::<Complex<f64>>() + &mk::<f64>(); } // accept operator-kinds
fn p14819() { let _ = &mk::<Complex<f64>>() + &mk::<f32>(); } // reject operator-precision
fn p14820() { let _ = &mk::<Complex<f32>>() + &mk::<f64>(); } // reject operator-precision
fn p14821() { let mut x = mk::<Complex<f64>>(); x += mk::<f64>(); } // accept assigning-kinds
fn p14822() { let mut x = mk::<Complex<f64>>(); x += mk::<f32>(); } // reject operator-precision
fn p14823() { let mut x = mk::<Complex<f64>>(); x += &mk::<f64>(); } // accept assigning-kinds
fn p14824() { let mut x = mk::<Complex<f64>>(); x += &mk::<f32>(); } // reject operator-precision
fn p14825() { let _: Complex<f64> = mk::<Complex<f64>>() - mk::<f64>(); } // accept operator-kinds
fn p14826() { let _ = mk::<Complex<f64>>() - mk::<f32>(); } // reject operator-precision
fn p14827() { let _ = mk::<Complex<f32>>() - mk::<f64>(); } // reject operator-precision
fn p14828() { let _: Complex<f64> = mk::<Complex<f64>>() - &mk::<f64>(); } // accept operator-kinds
fn p14829() { let _ = mk::<Complex<f64>>() - &mk::<f32>(); } // reject operator-precision
fn p14830() { let _ = mk::<Complex<f32>>() - &mk::<f64>(); } // reject operator-precision
fn p14831() { let _: Complex<f64> = &mk::<Complex<f64>>() - mk::<f64>(); } // accept operator-kinds
fn p14832() { let _ = &mk::<Complex<f64>>() - mk::<f32>(); } // reject operator-precision
fn p14833() { let _ = &mk::<Complex<f32>>() - mk::<f64>(); } // reject operator-precision
fn p14834() { let _: Complex<f64> = &mk::<Complex<f64>>() - &mk::<f64>(); } // accept operator-kinds
fn p14835() { let _ = &mk::<Complex<f64>>() - &mk::<f32>(); } // reject operator-precision
fn p14836() { let _ = &mk::<Complex<f32>>() - &mk::<f64>(); } // reject operator-precision
fn p14837() { let mut x = mk::<Complex<f64>>(); x -= mk::<f64>(); } // accept assigning-kinds
fn p14838() { let mut x = mk::<Complex<f64>>(); x -= mk::<f32>(); } // reject operator-precision
fn p14839() { let mut x = mk::<Complex<f64>>(); x -= &mk::<f64>(); } // accept assigning-kinds
fn p14840() { let mut x = mk::<Complex<f64>>(); x -= &mk::<f32>(); } // reject operator-precision
fn p14841() { let _: Complex<f64> = mk::<Complex<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p14842() { let _ = mk::<Complex<f64>>() * mk::<f32>(); } // reject operator-precision
fn p14843() { let _ = mk::<Complex<f32>>() * mk::<f64>(); } // reject operator-precision
fn p14844() { let _: Complex<f64> = mk::<Complex<f64>>() * &mk::<f64>(); } // accept operator-kinds
fn p14845() { let _ = mk::<Complex<f64>>() * &mk::<f32>(); } // reject operator-precision
fn p14846() { let _ = mk::<Complex<f32>>() * &mk::<f64>(); } // reject operator-precision
fn p14847() { let _: Complex<f64> = &mk::<Complex<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p14848() { let _ = &mk::<Complex<f64>>() * mk::<f32>(); } // reject operator-precision
fn p14849() { let _ = &mk::<Complex<f32>>() * mk::<f64>(); } // reject operator-precision
fn p14850() { let _: Complex<f64> = &mk::<Complex<f64>>() * &mk::<f64>(); } // accept operator-kinds
fn p14851() { let _ = &mk::<Complex<f64>>() * &mk::<f32>(); } // reject operator-precision
fn p14852() { let _ = &mk::<Complex<f32>>() * &mk::<f64>(); } // reject operator-precision
fn p14853() { let mut x = mk::<Complex<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p14854() { let mut x = mk::<Complex<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p14855() { let mut x = mk::<Complex<f64>>(); x *= &mk::<f64>(); } // accept assigning-kinds
fn p14856() { let mut x = mk::<Complex<f64>>(); x *= &mk::<f32>(); } // reject operator-precision
fn p14857() { let _: Complex<f64> = mk::<Complex<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p14858() { let _ = mk::<Complex<f64>>() / mk::<f32>(); } // reject operator-precision
fn p14859() { let _ = mk::<Complex<f32>>() / mk::<f64>(); } // reject operator-precision
fn p14860() { let _: Complex<f64> = mk::<Complex<f64>>() / &mk::<f64>(); } // accept operator-kinds
fn p14861() { let _ = mk::<Complex<f64>>() / &mk::<f32>(); } // reject operator-precision
fn p14862() { let _ = mk::<Complex<f32>>() / &mk::<f64>(); } // reject operator-precision
fn p14863() { let _: Complex<f64> = &mk::<Complex<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p14864() { let _ = &mk::<Complex<f64>>() / mk::<f32>(); } // reject operator-precision
fn p14865() { let _ = &mk::<Complex<f32>>() / mk::<f64>(); } // reject operator-precision
fn p14866() { let _: Complex<f64> = &mk::<Complex<f64>>() / &mk::<f64>(); } // accept operator-kinds
fn p14867() { let _ = &mk::<Complex<f64>>() / &mk::<f32>(); } // reject operator-precision
fn p14868() { let _ = &mk::<Complex<f32>>() / &mk::<f64>(); } // reject operator-precision
fn p14869() { let mut x = mk::<Complex<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p14870() { let mut x = mk::<Complex<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p14871() { let mut x = mk::<Complex<f64>>(); x /= &mk::<f64>(); } // accept assigning-kinds
fn p14872() { let mut x = mk::<Complex<f64>>(); x /= &mk::<f32>(); } // reject operator-precision
fn p14873() { let _: Complex<f64> = mk::<Complex<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p14874() { let _ = mk::<Complex<f64>>() % mk::<f32>(); } // reject operator-precision
fn p14875() { let _ = mk::<Complex<f32>>() % mk::<f64>(); } // reject operator-precision
fn p14876() { let _: Complex<f64> = mk::<Complex<f64>>() % &mk::<f64>(); } // accept operator-kinds
fn p14877() { let _ = mk::<Complex<f64>>() % &mk::<f32>(); } // reject operator-precision
fn p14878() { let _ = mk::<Complex<f32>>() % &mk::<f64>(); } // reject operator-precision
fn p14879() { let _: Complex<f64> = &mk::<Complex<f64>>() % mk::<f64>(); } // accept operator-kinds
fn p14880() { let _ = &mk::<Complex<f64>>() % mk::<f32>(); } // reject operator-precision
fn p14881() { let _ = &mk::<Complex<f32>>() % mk::<f64>(); } // reject operator-precision
fn p14882() { let _: Complex<f64> = &mk::<Complex<f64>>() % &mk::<f64>(); } // accept operator-kinds
fn p14883() { let _ = &mk::<Complex<f64>>() % &mk::<f32>(); } // reject operator-precision
fn p14884() { let _ = &mk::<Complex<f32>>() % &mk::<f64>(); } // reject operator-precision
fn p14885() { let mut x = mk::<Complex<f64>>(); x %= mk::<f64>(); } // accept assigning-kinds
fn p14886() { let mut x = mk::<Complex<f64>>(); x %= mk::<f32>(); } // reject operator-precision
fn p14887() { let mut x = mk::<Complex<f64>>(); x %= &mk::<f64>(); } // accept assigning-kinds
fn p14888() { let mut x = mk::<Complex<f64>>(); x %= &mk::<f32>(); } // reject operator-precision
fn p14889() { let _ = mk::<Complex<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p14890() { let _ = mk::<Complex<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p14891() { let _: f64 = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14892() { let _: f32 = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14893() { let _ = mk::<Complex<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14894() { let _ = mk::<Complex<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14895() { let _ = &mk::<Complex<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14896() { let _ = &mk::<Complex<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14897() { let mut x = mk::<Complex<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14898() { let mut x = mk::<Complex<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14899() { let _ = mk::<Complex<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14900() { let _ = mk::<Complex<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14901() { let _ = &mk::<Complex<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14902() { let _ = &mk::<Complex<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14903() { let mut x = mk::<Complex<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14904() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14905() { let _ = mk::<Complex<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14906() { let _ = mk::<Complex<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14907() { let _ = &mk::<Complex<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14908() { let _ = &mk::<Complex<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14909() { let mut x = mk::<Complex<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14910() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14911() { let _ = mk::<Complex<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14912() { let _ = mk::<Complex<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14913() { let _ = &mk::<Complex<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14914() { let _ = &mk::<Complex<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14915() { let mut x = mk::<Complex<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14916() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14917() { let _ = mk::<Complex<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14918() { let _ = mk::<Complex<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14919() { let _ = &mk::<Complex<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14920() { let _ = &mk::<Complex<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p14921() { let mut x = mk::<Complex<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14922() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p14923() { let _ = mk::<Complex<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p14924() { let _ = mk::<Complex<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p14925() { let _: Euler<Radians<f64>> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14926() { let _: Euler<Radians<f32>> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14927() { let _ = mk::<Complex<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14928() { let _ = mk::<Complex<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14929() { let _ = &mk::<Complex<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14930() { let _ = &mk::<Complex<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14931() { let mut x = mk::<Complex<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14932() { let mut x = mk::<Complex<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14933() { let _ = mk::<Complex<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14934() { let _ = mk::<Complex<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14935() { let _ = &mk::<Complex<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14936() { let _ = &mk::<Complex<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14937() { let mut x = mk::<Complex<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14938() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14939() { let _ = mk::<Complex<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14940() { let _ = mk::<Complex<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14941() { let _ = &mk::<Complex<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14942() { let _ = &mk::<Complex<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14943() { let mut x = mk::<Complex<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14944() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14945() { let _ = mk::<Complex<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14946() { let _ = mk::<Complex<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14947() { let _ = &mk::<Complex<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14948() { let _ = &mk::<Complex<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14949() { let mut x = mk::<Complex<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14950() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14951() { let _ = mk::<Complex<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14952() { let _ = mk::<Complex<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14953() { let _ = &mk::<Complex<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14954() { let _ = &mk::<Complex<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p14955() { let mut x = mk::<Complex<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14956() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p14957() { let _ = mk::<Complex<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p14958() { let _ = mk::<Complex<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p14959() { let _: Unit<Vector3<f64>> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14960() { let _: Unit<Vector3<f32>> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14961() { let _ = mk::<Complex<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14962() { let _ = mk::<Complex<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14963() { let _ = &mk::<Complex<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14964() { let _ = &mk::<Complex<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14965() { let mut x = mk::<Complex<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14966() { let mut x = mk::<Complex<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14967() { let _ = mk::<Complex<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14968() { let _ = mk::<Complex<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14969() { let _ = &mk::<Complex<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14970() { let _ = &mk::<Complex<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14971() { let mut x = mk::<Complex<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14972() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14973() { let _ = mk::<Complex<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14974() { let _ = mk::<Complex<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14975() { let _ = &mk::<Complex<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14976() { let _ = &mk::<Complex<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14977() { let mut x = mk::<Complex<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14978() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14979() { let _ = mk::<Complex<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14980() { let _ = mk::<Complex<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14981() { let _ = &mk::<Complex<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14982() { let _ = &mk::<Complex<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14983() { let mut x = mk::<Complex<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14984() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14985() { let _ = mk::<Complex<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14986() { let _ = mk::<Complex<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14987() { let _ = &mk::<Complex<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14988() { let _ = &mk::<Complex<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p14989() { let mut x = mk::<Complex<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14990() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p14991() { let _ = mk::<Complex<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p14992() { let _ = mk::<Complex<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p14993() { let _: Unit<Quaternion<f64>> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14994() { let _: Unit<Quaternion<f32>> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p14995() { let _ = mk::<Complex<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14996() { let _ = mk::<Complex<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14997() { let _ = &mk::<Complex<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14998() { let _ = &mk::<Complex<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p14999() { let mut x = mk::<Complex<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15000() { let mut x = mk::<Complex<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15001() { let _ = mk::<Complex<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15002() { let _ = mk::<Complex<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15003() { let _ = &mk::<Complex<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15004() { let _ = &mk::<Complex<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15005() { let mut x = mk::<Complex<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15006() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15007() { let _ = mk::<Complex<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15008() { let _ = mk::<Complex<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15009() { let _ = &mk::<Complex<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15010() { let _ = &mk::<Complex<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15011() { let mut x = mk::<Complex<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15012() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15013() { let _ = mk::<Complex<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15014() { let _ = mk::<Complex<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15015() { let _ = &mk::<Complex<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15016() { let _ = &mk::<Complex<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15017() { let mut x = mk::<Complex<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15018() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15019() { let _ = mk::<Complex<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15020() { let _ = mk::<Complex<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15021() { let _ = &mk::<Complex<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15022() { let _ = &mk::<Complex<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15023() { let mut x = mk::<Complex<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15024() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15025() { let _ = mk::<Complex<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p15026() { let _ = mk::<Complex<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p15027() { let _: Rotation3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15028() { let _: Rotation3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15029() { let _ = mk::<Complex<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15030() { let _ = mk::<Complex<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15031() { let _ = &mk::<Complex<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15032() { let _ = &mk::<Complex<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15033() { let mut x = mk::<Complex<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15034() { let mut x = mk::<Complex<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15035() { let _ = mk::<Complex<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15036() { let _ = mk::<Complex<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15037() { let _ = &mk::<Complex<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15038() { let _ = &mk::<Complex<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15039() { let mut x = mk::<Complex<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15040() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15041() { let _ = mk::<Complex<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15042() { let _ = mk::<Complex<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15043() { let _ = &mk::<Complex<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15044() { let _ = &mk::<Complex<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15045() { let mut x = mk::<Complex<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15046() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15047() { let _ = mk::<Complex<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15048() { let _ = mk::<Complex<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15049() { let _ = &mk::<Complex<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15050() { let _ = &mk::<Complex<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15051() { let mut x = mk::<Complex<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15052() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15053() { let _ = mk::<Complex<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15054() { let _ = mk::<Complex<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15055() { let _ = &mk::<Complex<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15056() { let _ = &mk::<Complex<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15057() { let mut x = mk::<Complex<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15058() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15059() { let _ = mk::<Complex<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p15060() { let _ = mk::<Complex<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p15061() { let _: Translation3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15062() { let _: Translation3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15063() { let _ = mk::<Complex<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15064() { let _ = mk::<Complex<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15065() { let _ = &mk::<Complex<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15066() { let _ = &mk::<Complex<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15067() { let mut x = mk::<Complex<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15068() { let mut x = mk::<Complex<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15069() { let _ = mk::<Complex<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15070() { let _ = mk::<Complex<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15071() { let _ = &mk::<Complex<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15072() { let _ = &mk::<Complex<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15073() { let mut x = mk::<Complex<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15074() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15075() { let _ = mk::<Complex<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15076() { let _ = mk::<Complex<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15077() { let _ = &mk::<Complex<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15078() { let _ = &mk::<Complex<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15079() { let mut x = mk::<Complex<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15080() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15081() { let _ = mk::<Complex<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15082() { let _ = mk::<Complex<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15083() { let _ = &mk::<Complex<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15084() { let _ = &mk::<Complex<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15085() { let mut x = mk::<Complex<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15086() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15087() { let _ = mk::<Complex<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15088() { let _ = mk::<Complex<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15089() { let _ = &mk::<Complex<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15090() { let _ = &mk::<Complex<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15091() { let mut x = mk::<Complex<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15092() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15093() { let _ = mk::<Complex<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p15094() { let _ = mk::<Complex<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p15095() { let _: Scale3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15096() { let _: Scale3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15097() { let _ = mk::<Complex<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15098() { let _ = mk::<Complex<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15099() { let _ = &mk::<Complex<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15100() { let _ = &mk::<Complex<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15101() { let mut x = mk::<Complex<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15102() { let mut x = mk::<Complex<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15103() { let _ = mk::<Complex<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15104() { let _ = mk::<Complex<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15105() { let _ = &mk::<Complex<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15106() { let _ = &mk::<Complex<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15107() { let mut x = mk::<Complex<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15108() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15109() { let _ = mk::<Complex<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15110() { let _ = mk::<Complex<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15111() { let _ = &mk::<Complex<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15112() { let _ = &mk::<Complex<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15113() { let mut x = mk::<Complex<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15114() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15115() { let _ = mk::<Complex<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15116() { let _ = mk::<Complex<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15117() { let _ = &mk::<Complex<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15118() { let _ = &mk::<Complex<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15119() { let mut x = mk::<Complex<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15120() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15121() { let _ = mk::<Complex<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15122() { let _ = mk::<Complex<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15123() { let _ = &mk::<Complex<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15124() { let _ = &mk::<Complex<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15125() { let mut x = mk::<Complex<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15126() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15127() { let _ = mk::<Complex<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p15128() { let _ = mk::<Complex<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p15129() { let _: Shear3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15130() { let _: Shear3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15131() { let _ = mk::<Complex<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15132() { let _ = mk::<Complex<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15133() { let _ = &mk::<Complex<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15134() { let _ = &mk::<Complex<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15135() { let mut x = mk::<Complex<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15136() { let mut x = mk::<Complex<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15137() { let _ = mk::<Complex<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15138() { let _ = mk::<Complex<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15139() { let _ = &mk::<Complex<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15140() { let _ = &mk::<Complex<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15141() { let mut x = mk::<Complex<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15142() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15143() { let _ = mk::<Complex<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15144() { let _ = mk::<Complex<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15145() { let _ = &mk::<Complex<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15146() { let _ = &mk::<Complex<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15147() { let mut x = mk::<Complex<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15148() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15149() { let _ = mk::<Complex<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15150() { let _ = mk::<Complex<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15151() { let _ = &mk::<Complex<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15152() { let _ = &mk::<Complex<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15153() { let mut x = mk::<Complex<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15154() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15155() { let _ = mk::<Complex<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15156() { let _ = mk::<Complex<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15157() { let _ = &mk::<Complex<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15158() { let _ = &mk::<Complex<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15159() { let mut x = mk::<Complex<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15160() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15161() { let _ = mk::<Complex<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p15162() { let _ = mk::<Complex<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p15163() { let _: Reflection3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15164() { let _: Reflection3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15165() { let _ = mk::<Complex<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15166() { let _ = mk::<Complex<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15167() { let _ = &mk::<Complex<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15168() { let _ = &mk::<Complex<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15169() { let mut x = mk::<Complex<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15170() { let mut x = mk::<Complex<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15171() { let _ = mk::<Complex<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15172() { let _ = mk::<Complex<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15173() { let _ = &mk::<Complex<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15174() { let _ = &mk::<Complex<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15175() { let mut x = mk::<Complex<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15176() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15177() { let _ = mk::<Complex<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15178() { let _ = mk::<Complex<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15179() { let _ = &mk::<Complex<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15180() { let _ = &mk::<Complex<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15181() { let mut x = mk::<Complex<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15182() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15183() { let _ = mk::<Complex<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15184() { let _ = mk::<Complex<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15185() { let _ = &mk::<Complex<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15186() { let _ = &mk::<Complex<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15187() { let mut x = mk::<Complex<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15188() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15189() { let _ = mk::<Complex<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15190() { let _ = mk::<Complex<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15191() { let _ = &mk::<Complex<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15192() { let _ = &mk::<Complex<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15193() { let mut x = mk::<Complex<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15194() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p15195() { let _ = mk::<Complex<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p15196() { let _ = mk::<Complex<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p15197() { let _: Isometry3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15198() { let _: Isometry3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15199() { let _ = mk::<Complex<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15200() { let _ = mk::<Complex<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15201() { let _ = &mk::<Complex<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15202() { let _ = &mk::<Complex<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15203() { let mut x = mk::<Complex<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15204() { let mut x = mk::<Complex<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15205() { let _ = mk::<Complex<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15206() { let _ = mk::<Complex<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15207() { let _ = &mk::<Complex<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15208() { let _ = &mk::<Complex<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15209() { let mut x = mk::<Complex<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15210() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15211() { let _ = mk::<Complex<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15212() { let _ = mk::<Complex<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15213() { let _ = &mk::<Complex<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15214() { let _ = &mk::<Complex<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15215() { let mut x = mk::<Complex<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15216() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15217() { let _ = mk::<Complex<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15218() { let _ = mk::<Complex<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15219() { let _ = &mk::<Complex<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15220() { let _ = &mk::<Complex<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15221() { let mut x = mk::<Complex<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15222() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15223() { let _ = mk::<Complex<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15224() { let _ = mk::<Complex<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15225() { let _ = &mk::<Complex<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15226() { let _ = &mk::<Complex<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p15227() { let mut x = mk::<Complex<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15228() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p15229() { let _ = mk::<Complex<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p15230() { let _ = mk::<Complex<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p15231() { let _: Similarity3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15232() { let _: Similarity3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15233() { let _ = mk::<Complex<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15234() { let _ = mk::<Complex<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15235() { let _ = &mk::<Complex<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15236() { let _ = &mk::<Complex<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15237() { let mut x = mk::<Complex<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15238() { let mut x = mk::<Complex<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15239() { let _ = mk::<Complex<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15240() { let _ = mk::<Complex<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15241() { let _ = &mk::<Complex<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15242() { let _ = &mk::<Complex<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15243() { let mut x = mk::<Complex<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15244() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15245() { let _ = mk::<Complex<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15246() { let _ = mk::<Complex<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15247() { let _ = &mk::<Complex<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15248() { let _ = &mk::<Complex<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15249() { let mut x = mk::<Complex<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15250() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15251() { let _ = mk::<Complex<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15252() { let _ = mk::<Complex<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15253() { let _ = &mk::<Complex<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15254() { let _ = &mk::<Complex<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15255() { let mut x = mk::<Complex<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15256() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15257() { let _ = mk::<Complex<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15258() { let _ = mk::<Complex<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15259() { let _ = &mk::<Complex<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15260() { let _ = &mk::<Complex<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p15261() { let mut x = mk::<Complex<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15262() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p15263() { let _ = mk::<Complex<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p15264() { let _ = mk::<Complex<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p15265() { let _: Transform3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15266() { let _: Transform3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15267() { let _ = mk::<Complex<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15268() { let _ = mk::<Complex<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15269() { let _ = &mk::<Complex<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15270() { let _ = &mk::<Complex<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15271() { let mut x = mk::<Complex<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15272() { let mut x = mk::<Complex<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15273() { let _ = mk::<Complex<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15274() { let _ = mk::<Complex<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15275() { let _ = &mk::<Complex<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15276() { let _ = &mk::<Complex<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15277() { let mut x = mk::<Complex<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15278() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15279() { let _ = mk::<Complex<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15280() { let _ = mk::<Complex<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15281() { let _ = &mk::<Complex<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15282() { let _ = &mk::<Complex<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15283() { let mut x = mk::<Complex<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15284() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15285() { let _ = mk::<Complex<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15286() { let _ = mk::<Complex<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15287() { let _ = &mk::<Complex<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15288() { let _ = &mk::<Complex<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15289() { let mut x = mk::<Complex<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15290() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15291() { let _ = mk::<Complex<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15292() { let _ = mk::<Complex<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15293() { let _ = &mk::<Complex<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15294() { let _ = &mk::<Complex<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p15295() { let mut x = mk::<Complex<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15296() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p15297() { let _ = mk::<Complex<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p15298() { let _ = mk::<Complex<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p15299() { let _: Perspective3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15300() { let _: Perspective3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15301() { let _ = mk::<Complex<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15302() { let _ = mk::<Complex<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15303() { let _ = &mk::<Complex<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15304() { let _ = &mk::<Complex<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15305() { let mut x = mk::<Complex<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15306() { let mut x = mk::<Complex<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15307() { let _ = mk::<Complex<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15308() { let _ = mk::<Complex<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15309() { let _ = &mk::<Complex<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15310() { let _ = &mk::<Complex<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15311() { let mut x = mk::<Complex<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15312() { let mut x = mk::<Complex<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15313() { let _ = mk::<Complex<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15314() { let _ = mk::<Complex<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15315() { let _ = &mk::<Complex<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15316() { let _ = &mk::<Complex<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15317() { let mut x = mk::<Complex<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15318() { let mut x = mk::<Complex<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15319() { let _ = mk::<Complex<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15320() { let _ = mk::<Complex<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15321() { let _ = &mk::<Complex<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15322() { let _ = &mk::<Complex<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15323() { let mut x = mk::<Complex<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15324() { let mut x = mk::<Complex<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15325() { let _ = mk::<Complex<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15326() { let _ = mk::<Complex<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15327() { let _ = &mk::<Complex<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15328() { let _ = &mk::<Complex<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p15329() { let mut x = mk::<Complex<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15330() { let mut x = mk::<Complex<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p15331() { let _ = mk::<Complex<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p15332() { let _ = mk::<Complex<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p15333() { let _: Orthographic3<f64> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15334() { let _: Orthographic3<f32> = mk::<Complex<f64>>(); } // reject no-implicit-conversion
fn p15335() { let _: Complex<f64> = -mk::<Complex<f64>>(); } // accept negation
fn p15336() { let _: Complex<f64> = -&mk::<Complex<f64>>(); } // accept negation
fn p15337() { let _ = !mk::<Complex<f64>>(); } // reject negation
fn p15338() { let _ = !&mk::<Complex<f64>>(); } // reject negation
fn p15339() { let _ = mk::<Radians<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15340() { let _ = mk::<Radians<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15341() { let _ = &mk::<Radians<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15342() { let _ = &mk::<Radians<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15343() { let mut x = mk::<Radians<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15344() { let mut x = mk::<Radians<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15345() { let _ = mk::<Radians<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15346() { let _ = mk::<Radians<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15347() { let _ = &mk::<Radians<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15348() { let _ = &mk::<Radians<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15349() { let mut x = mk::<Radians<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15350() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15351() { let _ = mk::<Radians<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15352() { let _ = mk::<Radians<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15353() { let _ = &mk::<Radians<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15354() { let _ = &mk::<Radians<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15355() { let mut x = mk::<Radians<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15356() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15357() { let _ = mk::<Radians<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15358() { let _ = mk::<Radians<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15359() { let _ = &mk::<Radians<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15360() { let _ = &mk::<Radians<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15361() { let mut x = mk::<Radians<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15362() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15363() { let _ = mk::<Radians<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15364() { let _ = mk::<Radians<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15365() { let _ = &mk::<Radians<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15366() { let _ = &mk::<Radians<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p15367() { let mut x = mk::<Radians<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15368() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p15369() { let _ = mk::<Radians<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p15370() { let _ = mk::<Radians<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p15371() { let _: Vector3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15372() { let _: Vector3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15373() { let _ = mk::<Radians<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15374() { let _ = mk::<Radians<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15375() { let _ = &mk::<Radians<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15376() { let _ = &mk::<Radians<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15377() { let mut x = mk::<Radians<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15378() { let mut x = mk::<Radians<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15379() { let _ = mk::<Radians<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15380() { let _ = mk::<Radians<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15381() { let _ = &mk::<Radians<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15382() { let _ = &mk::<Radians<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15383() { let mut x = mk::<Radians<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15384() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15385() { let _ = mk::<Radians<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15386() { let _ = mk::<Radians<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15387() { let _ = &mk::<Radians<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15388() { let _ = &mk::<Radians<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15389() { let mut x = mk::<Radians<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15390() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15391() { let _ = mk::<Radians<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15392() { let _ = mk::<Radians<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15393() { let _ = &mk::<Radians<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15394() { let _ = &mk::<Radians<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15395() { let mut x = mk::<Radians<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15396() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15397() { let _ = mk::<Radians<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15398() { let _ = mk::<Radians<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15399() { let _ = &mk::<Radians<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15400() { let _ = &mk::<Radians<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p15401() { let mut x = mk::<Radians<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15402() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p15403() { let _ = mk::<Radians<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p15404() { let _ = mk::<Radians<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p15405() { let _: Vector4<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15406() { let _: Vector4<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15407() { let _ = mk::<Radians<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p15408() { let _ = mk::<Radians<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15409() { let _ = &mk::<Radians<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p15410() { let _ = &mk::<Radians<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15411() { let mut x = mk::<Radians<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15412() { let mut x = mk::<Radians<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15413() { let _ = mk::<Radians<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p15414() { let _ = mk::<Radians<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15415() { let _ = &mk::<Radians<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p15416() { let _ = &mk::<Radians<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15417() { let mut x = mk::<Radians<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15418() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15419() { let _ = mk::<Radians<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p15420() { let _ = mk::<Radians<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15421() { let _ = &mk::<Radians<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p15422() { let _ = &mk::<Radians<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15423() { let mut x = mk::<Radians<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15424() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15425() { let _ = mk::<Radians<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p15426() { let _ = mk::<Radians<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15427() { let _ = &mk::<Radians<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p15428() { let _ = &mk::<Radians<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15429() { let mut x = mk::<Radians<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15430() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15431() { let _ = mk::<Radians<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p15432() { let _ = mk::<Radians<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15433() { let _ = &mk::<Radians<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p15434() { let _ = &mk::<Radians<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p15435() { let mut x = mk::<Radians<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15436() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p15437() { let _ = mk::<Radians<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p15438() { let _ = mk::<Radians<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p15439() { let _: Point3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15440() { let _: Point3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15441() { let _ = mk::<Radians<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15442() { let _ = mk::<Radians<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15443() { let _ = &mk::<Radians<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15444() { let _ = &mk::<Radians<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15445() { let mut x = mk::<Radians<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15446() { let mut x = mk::<Radians<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15447() { let _ = mk::<Radians<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15448() { let _ = mk::<Radians<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15449() { let _ = &mk::<Radians<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15450() { let _ = &mk::<Radians<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15451() { let mut x = mk::<Radians<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15452() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15453() { let _ = mk::<Radians<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15454() { let _ = mk::<Radians<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15455() { let _ = &mk::<Radians<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15456() { let _ = &mk::<Radians<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15457() { let mut x = mk::<Radians<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15458() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15459() { let _ = mk::<Radians<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15460() { let _ = mk::<Radians<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15461() { let _ = &mk::<Radians<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15462() { let _ = &mk::<Radians<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15463() { let mut x = mk::<Radians<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15464() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15465() { let _ = mk::<Radians<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15466() { let _ = mk::<Radians<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15467() { let _ = &mk::<Radians<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15468() { let _ = &mk::<Radians<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p15469() { let mut x = mk::<Radians<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15470() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p15471() { let _ = mk::<Radians<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p15472() { let _ = mk::<Radians<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p15473() { let _: Matrix3x3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15474() { let _: Matrix3x3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15475() { let _ = mk::<Radians<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15476() { let _ = mk::<Radians<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15477() { let _ = &mk::<Radians<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15478() { let _ = &mk::<Radians<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15479() { let mut x = mk::<Radians<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15480() { let mut x = mk::<Radians<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15481() { let _ = mk::<Radians<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15482() { let _ = mk::<Radians<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15483() { let _ = &mk::<Radians<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15484() { let _ = &mk::<Radians<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15485() { let mut x = mk::<Radians<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15486() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15487() { let _ = mk::<Radians<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15488() { let _ = mk::<Radians<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15489() { let _ = &mk::<Radians<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15490() { let _ = &mk::<Radians<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15491() { let mut x = mk::<Radians<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15492() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15493() { let _ = mk::<Radians<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15494() { let _ = mk::<Radians<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15495() { let _ = &mk::<Radians<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15496() { let _ = &mk::<Radians<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15497() { let mut x = mk::<Radians<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15498() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15499() { let _ = mk::<Radians<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15500() { let _ = mk::<Radians<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15501() { let _ = &mk::<Radians<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15502() { let _ = &mk::<Radians<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p15503() { let mut x = mk::<Radians<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15504() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p15505() { let _ = mk::<Radians<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p15506() { let _ = mk::<Radians<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p15507() { let _: Matrix4x4<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15508() { let _: Matrix4x4<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15509() { let _ = mk::<Radians<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15510() { let _ = mk::<Radians<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15511() { let _ = &mk::<Radians<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15512() { let _ = &mk::<Radians<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15513() { let mut x = mk::<Radians<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15514() { let mut x = mk::<Radians<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15515() { let _ = mk::<Radians<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15516() { let _ = mk::<Radians<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15517() { let _ = &mk::<Radians<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15518() { let _ = &mk::<Radians<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15519() { let mut x = mk::<Radians<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15520() { let mut x = mk::<Radians<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15521() { let _ = mk::<Radians<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15522() { let _ = mk::<Radians<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15523() { let _ = &mk::<Radians<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15524() { let _ = &mk::<Radians<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15525() { let mut x = mk::<Radians<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15526() { let mut x = mk::<Radians<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15527() { let _ = mk::<Radians<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15528() { let _ = mk::<Radians<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15529() { let _ = &mk::<Radians<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15530() { let _ = &mk::<Radians<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15531() { let mut x = mk::<Radians<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15532() { let mut x = mk::<Radians<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15533() { let _ = mk::<Radians<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15534() { let _ = mk::<Radians<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15535() { let _ = &mk::<Radians<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15536() { let _ = &mk::<Radians<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p15537() { let mut x = mk::<Radians<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15538() { let mut x = mk::<Radians<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p15539() { let _ = mk::<Radians<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p15540() { let _ = mk::<Radians<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p15541() { let _: RowVector3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15542() { let _: RowVector3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15543() { let _ = mk::<Radians<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15544() { let _ = mk::<Radians<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15545() { let _ = &mk::<Radians<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15546() { let _ = &mk::<Radians<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15547() { let mut x = mk::<Radians<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15548() { let mut x = mk::<Radians<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15549() { let _ = mk::<Radians<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15550() { let _ = mk::<Radians<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15551() { let _ = &mk::<Radians<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15552() { let _ = &mk::<Radians<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15553() { let mut x = mk::<Radians<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15554() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15555() { let _ = mk::<Radians<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15556() { let _ = mk::<Radians<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15557() { let _ = &mk::<Radians<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15558() { let _ = &mk::<Radians<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15559() { let mut x = mk::<Radians<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15560() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15561() { let _ = mk::<Radians<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15562() { let _ = mk::<Radians<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15563() { let _ = &mk::<Radians<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15564() { let _ = &mk::<Radians<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15565() { let mut x = mk::<Radians<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15566() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15567() { let _ = mk::<Radians<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15568() { let _ = mk::<Radians<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15569() { let _ = &mk::<Radians<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15570() { let _ = &mk::<Radians<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p15571() { let mut x = mk::<Radians<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15572() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p15573() { let _ = mk::<Radians<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p15574() { let _ = mk::<Radians<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p15575() { let _: Quaternion<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15576() { let _: Quaternion<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15577() { let _ = mk::<Radians<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p15578() { let _ = mk::<Radians<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15579() { let _ = &mk::<Radians<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p15580() { let _ = &mk::<Radians<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15581() { let mut x = mk::<Radians<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15582() { let mut x = mk::<Radians<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15583() { let _ = mk::<Radians<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p15584() { let _ = mk::<Radians<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15585() { let _ = &mk::<Radians<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p15586() { let _ = &mk::<Radians<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15587() { let mut x = mk::<Radians<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15588() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15589() { let _ = mk::<Radians<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p15590() { let _ = mk::<Radians<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15591() { let _ = &mk::<Radians<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p15592() { let _ = &mk::<Radians<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15593() { let mut x = mk::<Radians<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15594() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15595() { let _ = mk::<Radians<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p15596() { let _ = mk::<Radians<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15597() { let _ = &mk::<Radians<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p15598() { let _ = &mk::<Radians<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15599() { let mut x = mk::<Radians<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15600() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15601() { let _ = mk::<Radians<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p15602() { let _ = mk::<Radians<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15603() { let _ = &mk::<Radians<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p15604() { let _ = &mk::<Radians<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p15605() { let mut x = mk::<Radians<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15606() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p15607() { let _ = mk::<Radians<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p15608() { let _ = mk::<Radians<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p15609() { let _: Complex<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15610() { let _: Complex<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15611() { let _ = mk::<Radians<f64>>() + mk::<Radians<f32>>(); } // reject operator-precision
fn p15612() { let _ = mk::<Radians<f32>>() + mk::<Radians<f64>>(); } // reject operator-precision
fn p15613() { let _ = mk::<Radians<f64>>() + &mk::<Radians<f32>>(); } // reject operator-precision
fn p15614() { let _ = mk::<Radians<f32>>() + &mk::<Radians<f64>>(); } // reject operator-precision
fn p15615() { let _ = &mk::<Radians<f64>>() + mk::<Radians<f32>>(); } // reject operator-precision
fn p15616() { let _ = &mk::<Radians<f32>>() + mk::<Radians<f64>>(); } // reject operator-precision
fn p15617() { let _ = &mk::<Radians<f64>>() + &mk::<Radians<f32>>(); } // reject operator-precision
fn p15618() { let _ = &mk::<Radians<f32>>() + &mk::<Radians<f64>>(); } // reject operator-precision
fn p15619() { let mut x = mk::<Radians<f64>>(); x += mk::<Radians<f32>>(); } // reject operator-precision
fn p15620() { let _ = mk::<Radians<f64>>() - mk::<Radians<f32>>(); } // reject operator-precision
fn p15621() { let _ = mk::<Radians<f32>>() - mk::<Radians<f64>>(); } // reject operator-precision
fn p15622() { let _ = mk::<Radians<f64>>() - &mk::<Radians<f32>>(); } // reject operator-precision
fn p15623() { let _ = mk::<Radians<f32>>() - &mk::<Radians<f64>>(); } // reject operator-precision
fn p15624() { let _ = &mk::<Radians<f64>>() - mk::<Radians<f32>>(); } // reject operator-precision
fn p15625() { let _ = &mk::<Radians<f32>>() - mk::<Radians<f64>>(); } // reject operator-precision
fn p15626() { let _ = &mk::<Radians<f64>>() - &mk::<Radians<f32>>(); } // reject operator-precision
fn p15627() { let _ = &mk::<Radians<f32>>() - &mk::<Radians<f64>>(); } // reject operator-precision
fn p15628() { let mut x = mk::<Radians<f64>>(); x -= mk::<Radians<f32>>(); } // reject operator-precision
fn p15629() { let _ = mk::<Radians<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p15630() { let _ = &mk::<Radians<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p15631() { let _ = &mk::<Radians<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p15632() { let mut x = mk::<Radians<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p15633() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p15634() { let _: f64 = mk::<Radians<f64>>() / mk::<Radians<f64>>(); } // accept operator-kinds
fn p15635() { let _ = mk::<Radians<f64>>() / mk::<Radians<f32>>(); } // reject operator-precision
fn p15636() { let _ = mk::<Radians<f32>>() / mk::<Radians<f64>>(); } // reject operator-precision
fn p15637() { let _: f64 = mk::<Radians<f64>>() / &mk::<Radians<f64>>(); } // accept operator-kinds
fn p15638() { let _ = mk::<Radians<f64>>() / &mk::<Radians<f32>>(); } // reject operator-precision
fn p15639() { let _ = mk::<Radians<f32>>() / &mk::<Radians<f64>>(); } // reject operator-precision
fn p15640() { let _: f64 = &mk::<Radians<f64>>() / mk::<Radians<f64>>(); } // accept operator-kinds
fn p15641() { let _ = &mk::<Radians<f64>>() / mk::<Radians<f32>>(); } // reject operator-precision
fn p15642() { let _ = &mk::<Radians<f32>>() / mk::<Radians<f64>>(); } // reject operator-precision
fn p15643() { let _: f64 = &mk::<Radians<f64>>() / &mk::<Radians<f64>>(); } // accept operator-kinds
fn p15644() { let _ = &mk::<Radians<f64>>() / &mk::<Radians<f32>>(); } // reject operator-precision
fn p15645() { let _ = &mk::<Radians<f32>>() / &mk::<Radians<f64>>(); } // reject operator-precision
fn p15646() { let mut x = mk::<Radians<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p15647() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p15648() { let _: Radians<f64> = mk::<Radians<f64>>() % mk::<Radians<f64>>(); } // accept operator-kinds
fn p15649() { let _ = mk::<Radians<f64>>() % mk::<Radians<f32>>(); } // reject operator-precision
fn p15650() { let _ = mk::<Radians<f32>>() % mk::<Radians<f64>>(); } // reject operator-precision
fn p15651() { let _: Radians<f64> = mk::<Radians<f64>>() % &mk::<Radians<f64>>(); } // accept operator-kinds
fn p15652() { let _ = mk::<Radians<f64>>() % &mk::<Radians<f32>>(); } // reject operator-precision
fn p15653() { let _ = mk::<Radians<f32>>() % &mk::<Radians<f64>>(); } // reject operator-precision
fn p15654() { let _: Radians<f64> = &mk::<Radians<f64>>() % mk::<Radians<f64>>(); } // accept operator-kinds
fn p15655() { let _ = &mk::<Radians<f64>>() % mk::<Radians<f32>>(); } // reject operator-precision
fn p15656() { let _ = &mk::<Radians<f32>>() % mk::<Radians<f64>>(); } // reject operator-precision
fn p15657() { let _: Radians<f64> = &mk::<Radians<f64>>() % &mk::<Radians<f64>>(); } // accept operator-kinds
fn p15658() { let _ = &mk::<Radians<f64>>() % &mk::<Radians<f32>>(); } // reject operator-precision
fn p15659() { let _ = &mk::<Radians<f32>>() % &mk::<Radians<f64>>(); } // reject operator-precision
fn p15660() { let mut x = mk::<Radians<f64>>(); x %= mk::<Radians<f64>>(); } // accept assigning-kinds
fn p15661() { let mut x = mk::<Radians<f64>>(); x %= mk::<Radians<f32>>(); } // reject operator-precision
fn p15662() { let _: Radians<f64> = mk::<Radians<f64>>(); } // accept no-implicit-conversion
fn p15663() { let _: Radians<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15664() { let _ = mk::<Radians<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15665() { let _ = mk::<Radians<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15666() { let _ = &mk::<Radians<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15667() { let _ = &mk::<Radians<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15668() { let mut x = mk::<Radians<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15669() { let _ = mk::<Radians<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15670() { let _ = mk::<Radians<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15671() { let _ = &mk::<Radians<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15672() { let _ = &mk::<Radians<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15673() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15674() { let _ = mk::<Radians<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15675() { let _ = &mk::<Radians<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15676() { let _ = &mk::<Radians<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15677() { let mut x = mk::<Radians<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15678() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15679() { let _ = mk::<Radians<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15680() { let _ = mk::<Radians<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15681() { let _ = &mk::<Radians<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15682() { let _ = &mk::<Radians<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15683() { let mut x = mk::<Radians<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15684() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15685() { let _ = mk::<Radians<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15686() { let _ = mk::<Radians<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15687() { let _ = &mk::<Radians<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15688() { let _ = &mk::<Radians<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p15689() { let mut x = mk::<Radians<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15690() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p15691() { let _: Degrees<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15692() { let _: Degrees<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15693() { let _ = mk::<Radians<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p15694() { let _ = mk::<Radians<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p15695() { let _ = &mk::<Radians<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p15696() { let _ = &mk::<Radians<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p15697() { let mut x = mk::<Radians<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p15698() { let mut x = mk::<Radians<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p15699() { let _ = mk::<Radians<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p15700() { let _ = mk::<Radians<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p15701() { let _ = &mk::<Radians<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p15702() { let _ = &mk::<Radians<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p15703() { let mut x = mk::<Radians<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p15704() { let mut x = mk::<Radians<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p15705() { let _: Radians<f64> = mk::<Radians<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p15706() { let _ = mk::<Radians<f64>>() * mk::<f32>(); } // reject operator-precision
fn p15707() { let _ = mk::<Radians<f32>>() * mk::<f64>(); } // reject operator-precision
fn p15708() { let _: Radians<f64> = &mk::<Radians<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p15709() { let _ = &mk::<Radians<f64>>() * mk::<f32>(); } // reject operator-precision
fn p15710() { let _ = &mk::<Radians<f32>>() * mk::<f64>(); } // reject operator-precision
fn p15711() { let mut x = mk::<Radians<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p15712() { let mut x = mk::<Radians<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p15713() { let _: Radians<f64> = mk::<Radians<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p15714() { let _ = mk::<Radians<f64>>() / mk::<f32>(); } // reject operator-precision
fn p15715() { let _ = mk::<Radians<f32>>() / mk::<f64>(); } // reject operator-precision
fn p15716() { let _: Radians<f64> = &mk::<Radians<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p15717() { let _ = &mk::<Radians<f64>>() / mk::<f32>(); } // reject operator-precision
fn p15718() { let _ = &mk::<Radians<f32>>() / mk::<f64>(); } // reject operator-precision
fn p15719() { let mut x = mk::<Radians<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p15720() { let mut x = mk::<Radians<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p15721() { let _ = mk::<Radians<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p15722() { let _ = mk::<Radians<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p15723() { let _: f32 = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15724() { let _ = mk::<Radians<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15725() { let _ = mk::<Radians<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15726() { let _ = &mk::<Radians<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15727() { let _ = &mk::<Radians<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15728() { let mut x = mk::<Radians<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15729() { let mut x = mk::<Radians<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15730() { let _ = mk::<Radians<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15731() { let _ = mk::<Radians<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15732() { let _ = &mk::<Radians<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15733() { let _ = &mk::<Radians<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15734() { let mut x = mk::<Radians<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15735() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15736() { let _ = mk::<Radians<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15737() { let _ = mk::<Radians<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15738() { let _ = &mk::<Radians<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15739() { let _ = &mk::<Radians<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15740() { let mut x = mk::<Radians<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15741() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15742() { let _ = mk::<Radians<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15743() { let _ = mk::<Radians<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15744() { let _ = &mk::<Radians<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15745() { let _ = &mk::<Radians<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15746() { let mut x = mk::<Radians<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15747() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15748() { let _ = mk::<Radians<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15749() { let _ = mk::<Radians<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15750() { let _ = &mk::<Radians<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15751() { let _ = &mk::<Radians<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p15752() { let mut x = mk::<Radians<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15753() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p15754() { let _ = mk::<Radians<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p15755() { let _ = mk::<Radians<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p15756() { let _: Euler<Radians<f64>> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15757() { let _: Euler<Radians<f32>> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15758() { let _ = mk::<Radians<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15759() { let _ = mk::<Radians<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15760() { let _ = &mk::<Radians<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15761() { let _ = &mk::<Radians<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15762() { let mut x = mk::<Radians<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15763() { let mut x = mk::<Radians<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15764() { let _ = mk::<Radians<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15765() { let _ = mk::<Radians<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15766() { let _ = &mk::<Radians<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15767() { let _ = &mk::<Radians<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15768() { let mut x = mk::<Radians<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15769() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15770() { let _ = mk::<Radians<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15771() { let _ = mk::<Radians<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15772() { let _ = &mk::<Radians<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15773() { let _ = &mk::<Radians<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15774() { let mut x = mk::<Radians<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15775() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15776() { let _ = mk::<Radians<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15777() { let _ = mk::<Radians<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15778() { let _ = &mk::<Radians<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15779() { let _ = &mk::<Radians<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15780() { let mut x = mk::<Radians<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15781() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15782() { let _ = mk::<Radians<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15783() { let _ = mk::<Radians<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15784() { let _ = &mk::<Radians<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15785() { let _ = &mk::<Radians<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p15786() { let mut x = mk::<Radians<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15787() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p15788() { let _ = mk::<Radians<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p15789() { let _ = mk::<Radians<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p15790() { let _: Unit<Vector3<f64>> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15791() { let _: Unit<Vector3<f32>> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15792() { let _ = mk::<Radians<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15793() { let _ = mk::<Radians<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15794() { let _ = &mk::<Radians<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15795() { let _ = &mk::<Radians<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15796() { let mut x = mk::<Radians<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15797() { let mut x = mk::<Radians<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15798() { let _ = mk::<Radians<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15799() { let _ = mk::<Radians<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15800() { let _ = &mk::<Radians<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15801() { let _ = &mk::<Radians<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15802() { let mut x = mk::<Radians<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15803() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15804() { let _ = mk::<Radians<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15805() { let _ = mk::<Radians<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15806() { let _ = &mk::<Radians<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15807() { let _ = &mk::<Radians<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15808() { let mut x = mk::<Radians<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15809() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15810() { let _ = mk::<Radians<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15811() { let _ = mk::<Radians<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15812() { let _ = &mk::<Radians<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15813() { let _ = &mk::<Radians<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15814() { let mut x = mk::<Radians<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15815() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15816() { let _ = mk::<Radians<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15817() { let _ = mk::<Radians<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15818() { let _ = &mk::<Radians<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15819() { let _ = &mk::<Radians<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p15820() { let mut x = mk::<Radians<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15821() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p15822() { let _ = mk::<Radians<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p15823() { let _ = mk::<Radians<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p15824() { let _: Unit<Quaternion<f64>> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15825() { let _: Unit<Quaternion<f32>> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15826() { let _ = mk::<Radians<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15827() { let _ = mk::<Radians<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15828() { let _ = &mk::<Radians<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15829() { let _ = &mk::<Radians<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15830() { let mut x = mk::<Radians<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15831() { let mut x = mk::<Radians<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15832() { let _ = mk::<Radians<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15833() { let _ = mk::<Radians<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15834() { let _ = &mk::<Radians<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15835() { let _ = &mk::<Radians<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15836() { let mut x = mk::<Radians<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15837() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15838() { let _ = mk::<Radians<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15839() { let _ = mk::<Radians<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15840() { let _ = &mk::<Radians<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15841() { let _ = &mk::<Radians<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15842() { let mut x = mk::<Radians<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15843() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15844() { let _ = mk::<Radians<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15845() { let _ = mk::<Radians<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15846() { let _ = &mk::<Radians<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15847() { let _ = &mk::<Radians<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15848() { let mut x = mk::<Radians<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15849() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15850() { let _ = mk::<Radians<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15851() { let _ = mk::<Radians<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15852() { let _ = &mk::<Radians<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15853() { let _ = &mk::<Radians<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p15854() { let mut x = mk::<Radians<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15855() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p15856() { let _ = mk::<Radians<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p15857() { let _ = mk::<Radians<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p15858() { let _: Rotation3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15859() { let _: Rotation3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15860() { let _ = mk::<Radians<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15861() { let _ = mk::<Radians<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15862() { let _ = &mk::<Radians<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15863() { let _ = &mk::<Radians<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15864() { let mut x = mk::<Radians<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15865() { let mut x = mk::<Radians<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15866() { let _ = mk::<Radians<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15867() { let _ = mk::<Radians<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15868() { let _ = &mk::<Radians<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15869() { let _ = &mk::<Radians<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15870() { let mut x = mk::<Radians<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15871() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15872() { let _ = mk::<Radians<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15873() { let _ = mk::<Radians<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15874() { let _ = &mk::<Radians<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15875() { let _ = &mk::<Radians<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15876() { let mut x = mk::<Radians<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15877() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15878() { let _ = mk::<Radians<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15879() { let _ = mk::<Radians<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15880() { let _ = &mk::<Radians<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15881() { let _ = &mk::<Radians<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15882() { let mut x = mk::<Radians<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15883() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15884() { let _ = mk::<Radians<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15885() { let _ = mk::<Radians<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15886() { let _ = &mk::<Radians<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15887() { let _ = &mk::<Radians<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p15888() { let mut x = mk::<Radians<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15889() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p15890() { let _ = mk::<Radians<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p15891() { let _ = mk::<Radians<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p15892() { let _: Translation3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15893() { let _: Translation3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15894() { let _ = mk::<Radians<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15895() { let _ = mk::<Radians<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15896() { let _ = &mk::<Radians<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15897() { let _ = &mk::<Radians<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15898() { let mut x = mk::<Radians<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15899() { let mut x = mk::<Radians<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15900() { let _ = mk::<Radians<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15901() { let _ = mk::<Radians<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15902() { let _ = &mk::<Radians<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15903() { let _ = &mk::<Radians<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15904() { let mut x = mk::<Radians<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15905() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15906() { let _ = mk::<Radians<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15907() { let _ = mk::<Radians<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15908() { let _ = &mk::<Radians<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15909() { let _ = &mk::<Radians<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15910() { let mut x = mk::<Radians<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15911() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15912() { let _ = mk::<Radians<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15913() { let _ = mk::<Radians<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15914() { let _ = &mk::<Radians<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15915() { let _ = &mk::<Radians<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15916() { let mut x = mk::<Radians<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15917() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15918() { let _ = mk::<Radians<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15919() { let _ = mk::<Radians<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15920() { let _ = &mk::<Radians<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15921() { let _ = &mk::<Radians<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p15922() { let mut x = mk::<Radians<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15923() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p15924() { let _ = mk::<Radians<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p15925() { let _ = mk::<Radians<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p15926() { let _: Scale3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15927() { let _: Scale3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15928() { let _ = mk::<Radians<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15929() { let _ = mk::<Radians<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15930() { let _ = &mk::<Radians<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15931() { let _ = &mk::<Radians<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15932() { let mut x = mk::<Radians<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15933() { let mut x = mk::<Radians<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15934() { let _ = mk::<Radians<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15935() { let _ = mk::<Radians<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15936() { let _ = &mk::<Radians<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15937() { let _ = &mk::<Radians<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15938() { let mut x = mk::<Radians<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15939() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15940() { let _ = mk::<Radians<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15941() { let _ = mk::<Radians<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15942() { let _ = &mk::<Radians<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15943() { let _ = &mk::<Radians<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15944() { let mut x = mk::<Radians<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15945() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15946() { let _ = mk::<Radians<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15947() { let _ = mk::<Radians<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15948() { let _ = &mk::<Radians<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15949() { let _ = &mk::<Radians<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15950() { let mut x = mk::<Radians<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15951() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15952() { let _ = mk::<Radians<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15953() { let _ = mk::<Radians<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15954() { let _ = &mk::<Radians<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15955() { let _ = &mk::<Radians<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p15956() { let mut x = mk::<Radians<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15957() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p15958() { let _ = mk::<Radians<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p15959() { let _ = mk::<Radians<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p15960() { let _: Shear3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15961() { let _: Shear3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15962() { let _ = mk::<Radians<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15963() { let _ = mk::<Radians<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15964() { let _ = &mk::<Radians<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15965() { let _ = &mk::<Radians<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15966() { let mut x = mk::<Radians<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15967() { let mut x = mk::<Radians<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15968() { let _ = mk::<Radians<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15969() { let _ = mk::<Radians<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15970() { let _ = &mk::<Radians<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15971() { let _ = &mk::<Radians<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15972() { let mut x = mk::<Radians<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15973() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15974() { let _ = mk::<Radians<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15975() { let _ = mk::<Radians<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15976() { let _ = &mk::<Radians<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15977() { let _ = &mk::<Radians<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15978() { let mut x = mk::<Radians<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15979() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15980() { let _ = mk::<Radians<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15981() { let _ = mk::<Radians<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15982() { let _ = &mk::<Radians<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15983() { let _ = &mk::<Radians<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15984() { let mut x = mk::<Radians<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15985() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15986() { let _ = mk::<Radians<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15987() { let _ = mk::<Radians<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15988() { let _ = &mk::<Radians<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15989() { let _ = &mk::<Radians<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p15990() { let mut x = mk::<Radians<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15991() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p15992() { let _ = mk::<Radians<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p15993() { let _ = mk::<Radians<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p15994() { let _: Reflection3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15995() { let _: Reflection3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p15996() { let _ = mk::<Radians<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15997() { let _ = mk::<Radians<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15998() { let _ = &mk::<Radians<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p15999() { let _ = &mk::<Radians<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16000() { let mut x = mk::<Radians<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16001() { let mut x = mk::<Radians<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16002() { let _ = mk::<Radians<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16003() { let _ = mk::<Radians<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16004() { let _ = &mk::<Radians<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16005() { let _ = &mk::<Radians<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16006() { let mut x = mk::<Radians<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16007() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16008() { let _ = mk::<Radians<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16009() { let _ = mk::<Radians<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16010() { let _ = &mk::<Radians<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16011() { let _ = &mk::<Radians<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16012() { let mut x = mk::<Radians<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16013() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16014() { let _ = mk::<Radians<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16015() { let _ = mk::<Radians<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16016() { let _ = &mk::<Radians<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16017() { let _ = &mk::<Radians<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16018() { let mut x = mk::<Radians<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16019() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16020() { let _ = mk::<Radians<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16021() { let _ = mk::<Radians<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16022() { let _ = &mk::<Radians<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16023() { let _ = &mk::<Radians<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16024() { let mut x = mk::<Radians<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16025() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16026() { let _ = mk::<Radians<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p16027() { let _ = mk::<Radians<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p16028() { let _: Isometry3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16029() { let _: Isometry3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16030() { let _ = mk::<Radians<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16031() { let _ = mk::<Radians<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16032() { let _ = &mk::<Radians<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16033() { let _ = &mk::<Radians<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16034() { let mut x = mk::<Radians<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16035() { let mut x = mk::<Radians<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16036() { let _ = mk::<Radians<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16037() { let _ = mk::<Radians<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16038() { let _ = &mk::<Radians<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16039() { let _ = &mk::<Radians<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16040() { let mut x = mk::<Radians<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16041() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16042() { let _ = mk::<Radians<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16043() { let _ = mk::<Radians<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16044() { let _ = &mk::<Radians<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16045() { let _ = &mk::<Radians<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16046() { let mut x = mk::<Radians<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16047() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16048() { let _ = mk::<Radians<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16049() { let _ = mk::<Radians<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16050() { let _ = &mk::<Radians<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16051() { let _ = &mk::<Radians<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16052() { let mut x = mk::<Radians<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16053() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16054() { let _ = mk::<Radians<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16055() { let _ = mk::<Radians<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16056() { let _ = &mk::<Radians<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16057() { let _ = &mk::<Radians<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16058() { let mut x = mk::<Radians<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16059() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16060() { let _ = mk::<Radians<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p16061() { let _ = mk::<Radians<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p16062() { let _: Similarity3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16063() { let _: Similarity3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16064() { let _ = mk::<Radians<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16065() { let _ = mk::<Radians<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16066() { let _ = &mk::<Radians<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16067() { let _ = &mk::<Radians<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16068() { let mut x = mk::<Radians<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16069() { let mut x = mk::<Radians<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16070() { let _ = mk::<Radians<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16071() { let _ = mk::<Radians<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16072() { let _ = &mk::<Radians<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16073() { let _ = &mk::<Radians<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16074() { let mut x = mk::<Radians<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16075() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16076() { let _ = mk::<Radians<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16077() { let _ = mk::<Radians<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16078() { let _ = &mk::<Radians<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16079() { let _ = &mk::<Radians<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16080() { let mut x = mk::<Radians<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16081() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16082() { let _ = mk::<Radians<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16083() { let _ = mk::<Radians<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16084() { let _ = &mk::<Radians<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16085() { let _ = &mk::<Radians<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16086() { let mut x = mk::<Radians<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16087() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16088() { let _ = mk::<Radians<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16089() { let _ = mk::<Radians<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16090() { let _ = &mk::<Radians<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16091() { let _ = &mk::<Radians<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16092() { let mut x = mk::<Radians<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16093() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16094() { let _ = mk::<Radians<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p16095() { let _ = mk::<Radians<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p16096() { let _: Transform3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16097() { let _: Transform3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16098() { let _ = mk::<Radians<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16099() { let _ = mk::<Radians<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16100() { let _ = &mk::<Radians<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16101() { let _ = &mk::<Radians<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16102() { let mut x = mk::<Radians<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16103() { let mut x = mk::<Radians<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16104() { let _ = mk::<Radians<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16105() { let _ = mk::<Radians<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16106() { let _ = &mk::<Radians<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16107() { let _ = &mk::<Radians<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16108() { let mut x = mk::<Radians<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16109() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16110() { let _ = mk::<Radians<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16111() { let _ = mk::<Radians<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16112() { let _ = &mk::<Radians<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16113() { let _ = &mk::<Radians<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16114() { let mut x = mk::<Radians<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16115() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16116() { let _ = mk::<Radians<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16117() { let _ = mk::<Radians<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16118() { let _ = &mk::<Radians<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16119() { let _ = &mk::<Radians<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16120() { let mut x = mk::<Radians<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16121() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16122() { let _ = mk::<Radians<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16123() { let _ = mk::<Radians<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16124() { let _ = &mk::<Radians<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16125() { let _ = &mk::<Radians<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16126() { let mut x = mk::<Radians<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16127() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16128() { let _ = mk::<Radians<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p16129() { let _ = mk::<Radians<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p16130() { let _: Perspective3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16131() { let _: Perspective3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16132() { let _ = mk::<Radians<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16133() { let _ = mk::<Radians<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16134() { let _ = &mk::<Radians<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16135() { let _ = &mk::<Radians<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16136() { let mut x = mk::<Radians<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16137() { let mut x = mk::<Radians<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16138() { let _ = mk::<Radians<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16139() { let _ = mk::<Radians<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16140() { let _ = &mk::<Radians<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16141() { let _ = &mk::<Radians<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16142() { let mut x = mk::<Radians<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16143() { let mut x = mk::<Radians<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16144() { let _ = mk::<Radians<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16145() { let _ = mk::<Radians<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16146() { let _ = &mk::<Radians<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16147() { let _ = &mk::<Radians<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16148() { let mut x = mk::<Radians<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16149() { let mut x = mk::<Radians<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16150() { let _ = mk::<Radians<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16151() { let _ = mk::<Radians<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16152() { let _ = &mk::<Radians<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16153() { let _ = &mk::<Radians<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16154() { let mut x = mk::<Radians<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16155() { let mut x = mk::<Radians<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16156() { let _ = mk::<Radians<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16157() { let _ = mk::<Radians<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16158() { let _ = &mk::<Radians<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16159() { let _ = &mk::<Radians<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16160() { let mut x = mk::<Radians<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16161() { let mut x = mk::<Radians<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16162() { let _ = mk::<Radians<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p16163() { let _ = mk::<Radians<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p16164() { let _: Orthographic3<f64> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16165() { let _: Orthographic3<f32> = mk::<Radians<f64>>(); } // reject no-implicit-conversion
fn p16166() { let _: Radians<f64> = -mk::<Radians<f64>>(); } // accept negation
fn p16167() { let _: Radians<f64> = -&mk::<Radians<f64>>(); } // accept negation
fn p16168() { let _ = !mk::<Radians<f64>>(); } // reject negation
fn p16169() { let _ = !&mk::<Radians<f64>>(); } // reject negation
fn p16170() { let _ = mk::<Degrees<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16171() { let _ = mk::<Degrees<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16172() { let _ = &mk::<Degrees<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16173() { let _ = &mk::<Degrees<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16174() { let mut x = mk::<Degrees<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16175() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16176() { let _ = mk::<Degrees<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16177() { let _ = mk::<Degrees<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16178() { let _ = &mk::<Degrees<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16179() { let _ = &mk::<Degrees<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16180() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16181() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16182() { let _ = mk::<Degrees<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16183() { let _ = mk::<Degrees<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16184() { let _ = &mk::<Degrees<f64>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16185() { let _ = &mk::<Degrees<f64>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16186() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16187() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16188() { let _ = mk::<Degrees<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16189() { let _ = mk::<Degrees<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16190() { let _ = &mk::<Degrees<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16191() { let _ = &mk::<Degrees<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16192() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16193() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16194() { let _ = mk::<Degrees<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16195() { let _ = mk::<Degrees<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16196() { let _ = &mk::<Degrees<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16197() { let _ = &mk::<Degrees<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p16198() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16199() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p16200() { let _ = mk::<Degrees<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p16201() { let _ = mk::<Degrees<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p16202() { let _: Vector3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16203() { let _: Vector3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16204() { let _ = mk::<Degrees<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16205() { let _ = mk::<Degrees<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16206() { let _ = &mk::<Degrees<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16207() { let _ = &mk::<Degrees<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16208() { let mut x = mk::<Degrees<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16209() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16210() { let _ = mk::<Degrees<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16211() { let _ = mk::<Degrees<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16212() { let _ = &mk::<Degrees<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16213() { let _ = &mk::<Degrees<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16214() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16215() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16216() { let _ = mk::<Degrees<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16217() { let _ = mk::<Degrees<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16218() { let _ = &mk::<Degrees<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16219() { let _ = &mk::<Degrees<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16220() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16221() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16222() { let _ = mk::<Degrees<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16223() { let _ = mk::<Degrees<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16224() { let _ = &mk::<Degrees<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16225() { let _ = &mk::<Degrees<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16226() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16227() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16228() { let _ = mk::<Degrees<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16229() { let _ = mk::<Degrees<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16230() { let _ = &mk::<Degrees<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16231() { let _ = &mk::<Degrees<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p16232() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16233() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p16234() { let _ = mk::<Degrees<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p16235() { let _ = mk::<Degrees<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p16236() { let _: Vector4<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16237() { let _: Vector4<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16238() { let _ = mk::<Degrees<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p16239() { let _ = mk::<Degrees<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16240() { let _ = &mk::<Degrees<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p16241() { let _ = &mk::<Degrees<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16242() { let mut x = mk::<Degrees<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16243() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16244() { let _ = mk::<Degrees<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p16245() { let _ = mk::<Degrees<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16246() { let _ = &mk::<Degrees<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p16247() { let _ = &mk::<Degrees<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16248() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16249() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16250() { let _ = mk::<Degrees<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p16251() { let _ = mk::<Degrees<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16252() { let _ = &mk::<Degrees<f64>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p16253() { let _ = &mk::<Degrees<f64>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16254() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16255() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16256() { let _ = mk::<Degrees<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p16257() { let _ = mk::<Degrees<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16258() { let _ = &mk::<Degrees<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p16259() { let _ = &mk::<Degrees<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16260() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16261() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16262() { let _ = mk::<Degrees<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p16263() { let _ = mk::<Degrees<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16264() { let _ = &mk::<Degrees<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p16265() { let _ = &mk::<Degrees<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p16266() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16267() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p16268() { let _ = mk::<Degrees<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p16269() { let _ = mk::<Degrees<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p16270() { let _: Point3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16271() { let _: Point3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16272() { let _ = mk::<Degrees<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16273() { let _ = mk::<Degrees<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16274() { let _ = &mk::<Degrees<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16275() { let _ = &mk::<Degrees<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16276() { let mut x = mk::<Degrees<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16277() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16278() { let _ = mk::<Degrees<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16279() { let _ = mk::<Degrees<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16280() { let _ = &mk::<Degrees<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16281() { let _ = &mk::<Degrees<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16282() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16283() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16284() { let _ = mk::<Degrees<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16285() { let _ = mk::<Degrees<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16286() { let _ = &mk::<Degrees<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16287() { let _ = &mk::<Degrees<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16288() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16289() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16290() { let _ = mk::<Degrees<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16291() { let _ = mk::<Degrees<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16292() { let _ = &mk::<Degrees<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16293() { let _ = &mk::<Degrees<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16294() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16295() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16296() { let _ = mk::<Degrees<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16297() { let _ = mk::<Degrees<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16298() { let _ = &mk::<Degrees<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16299() { let _ = &mk::<Degrees<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p16300() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16301() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p16302() { let _ = mk::<Degrees<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p16303() { let _ = mk::<Degrees<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p16304() { let _: Matrix3x3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16305() { let _: Matrix3x3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16306() { let _ = mk::<Degrees<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16307() { let _ = mk::<Degrees<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16308() { let _ = &mk::<Degrees<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16309() { let _ = &mk::<Degrees<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16310() { let mut x = mk::<Degrees<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16311() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16312() { let _ = mk::<Degrees<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16313() { let _ = mk::<Degrees<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16314() { let _ = &mk::<Degrees<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16315() { let _ = &mk::<Degrees<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16316() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16317() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16318() { let _ = mk::<Degrees<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16319() { let _ = mk::<Degrees<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16320() { let _ = &mk::<Degrees<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16321() { let _ = &mk::<Degrees<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16322() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16323() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16324() { let _ = mk::<Degrees<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16325() { let _ = mk::<Degrees<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16326() { let _ = &mk::<Degrees<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16327() { let _ = &mk::<Degrees<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16328() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16329() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16330() { let _ = mk::<Degrees<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16331() { let _ = mk::<Degrees<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16332() { let _ = &mk::<Degrees<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16333() { let _ = &mk::<Degrees<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p16334() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16335() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p16336() { let _ = mk::<Degrees<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p16337() { let _ = mk::<Degrees<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p16338() { let _: Matrix4x4<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16339() { let _: Matrix4x4<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16340() { let _ = mk::<Degrees<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16341() { let _ = mk::<Degrees<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16342() { let _ = &mk::<Degrees<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16343() { let _ = &mk::<Degrees<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16344() { let mut x = mk::<Degrees<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16345() { let mut x = mk::<Degrees<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16346() { let _ = mk::<Degrees<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16347() { let _ = mk::<Degrees<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16348() { let _ = &mk::<Degrees<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16349() { let _ = &mk::<Degrees<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16350() { let mut x = mk::<Degrees<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16351() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16352() { let _ = mk::<Degrees<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16353() { let _ = mk::<Degrees<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16354() { let _ = &mk::<Degrees<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16355() { let _ = &mk::<Degrees<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16356() { let mut x = mk::<Degrees<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16357() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16358() { let _ = mk::<Degrees<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16359() { let _ = mk::<Degrees<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16360() { let _ = &mk::<Degrees<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16361() { let _ = &mk::<Degrees<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16362() { let mut x = mk::<Degrees<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16363() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16364() { let _ = mk::<Degrees<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16365() { let _ = mk::<Degrees<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16366() { let _ = &mk::<Degrees<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16367() { let _ = &mk::<Degrees<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p16368() { let mut x = mk::<Degrees<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16369() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p16370() { let _ = mk::<Degrees<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p16371() { let _ = mk::<Degrees<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p16372() { let _: RowVector3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16373() { let _: RowVector3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16374() { let _ = mk::<Degrees<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16375() { let _ = mk::<Degrees<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16376() { let _ = &mk::<Degrees<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16377() { let _ = &mk::<Degrees<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16378() { let mut x = mk::<Degrees<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16379() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16380() { let _ = mk::<Degrees<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16381() { let _ = mk::<Degrees<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16382() { let _ = &mk::<Degrees<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16383() { let _ = &mk::<Degrees<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16384() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16385() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16386() { let _ = mk::<Degrees<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16387() { let _ = mk::<Degrees<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16388() { let _ = &mk::<Degrees<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16389() { let _ = &mk::<Degrees<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16390() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16391() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16392() { let _ = mk::<Degrees<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16393() { let _ = mk::<Degrees<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16394() { let _ = &mk::<Degrees<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16395() { let _ = &mk::<Degrees<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16396() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16397() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16398() { let _ = mk::<Degrees<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16399() { let _ = mk::<Degrees<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16400() { let _ = &mk::<Degrees<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16401() { let _ = &mk::<Degrees<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p16402() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16403() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p16404() { let _ = mk::<Degrees<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p16405() { let _ = mk::<Degrees<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p16406() { let _: Quaternion<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16407() { let _: Quaternion<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16408() { let _ = mk::<Degrees<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p16409() { let _ = mk::<Degrees<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16410() { let _ = &mk::<Degrees<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p16411() { let _ = &mk::<Degrees<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16412() { let mut x = mk::<Degrees<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16413() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16414() { let _ = mk::<Degrees<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p16415() { let _ = mk::<Degrees<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16416() { let _ = &mk::<Degrees<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p16417() { let _ = &mk::<Degrees<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16418() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16419() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16420() { let _ = mk::<Degrees<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p16421() { let _ = mk::<Degrees<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16422() { let _ = &mk::<Degrees<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p16423() { let _ = &mk::<Degrees<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16424() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16425() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16426() { let _ = mk::<Degrees<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p16427() { let _ = mk::<Degrees<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16428() { let _ = &mk::<Degrees<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p16429() { let _ = &mk::<Degrees<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16430() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16431() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16432() { let _ = mk::<Degrees<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p16433() { let _ = mk::<Degrees<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16434() { let _ = &mk::<Degrees<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p16435() { let _ = &mk::<Degrees<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p16436() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16437() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p16438() { let _ = mk::<Degrees<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p16439() { let _ = mk::<Degrees<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p16440() { let _: Complex<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16441() { let _: Complex<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16442() { let _ = mk::<Degrees<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p16443() { let _ = mk::<Degrees<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16444() { let _ = &mk::<Degrees<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p16445() { let _ = &mk::<Degrees<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16446() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16447() { let _ = mk::<Degrees<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p16448() { let _ = mk::<Degrees<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16449() { let _ = &mk::<Degrees<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p16450() { let _ = &mk::<Degrees<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16451() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16452() { let _ = mk::<Degrees<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16453() { let _ = &mk::<Degrees<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p16454() { let _ = &mk::<Degrees<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16455() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16456() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16457() { let _ = mk::<Degrees<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p16458() { let _ = mk::<Degrees<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16459() { let _ = &mk::<Degrees<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p16460() { let _ = &mk::<Degrees<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16461() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16462() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16463() { let _ = mk::<Degrees<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p16464() { let _ = mk::<Degrees<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16465() { let _ = &mk::<Degrees<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p16466() { let _ = &mk::<Degrees<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p16467() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16468() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p16469() { let _: Radians<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16470() { let _: Radians<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16471() { let _ = mk::<Degrees<f64>>() + mk::<Degrees<f32>>(); } // reject operator-precision
fn p16472() { let _ = mk::<Degrees<f32>>() + mk::<Degrees<f64>>(); } // reject operator-precision
fn p16473() { let _ = mk::<Degrees<f64>>() + &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16474() { let _ = mk::<Degrees<f32>>() + &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16475() { let _ = &mk::<Degrees<f64>>() + mk::<Degrees<f32>>(); } // reject operator-precision
fn p16476() { let _ = &mk::<Degrees<f32>>() + mk::<Degrees<f64>>(); } // reject operator-precision
fn p16477() { let _ = &mk::<Degrees<f64>>() + &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16478() { let _ = &mk::<Degrees<f32>>() + &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16479() { let mut x = mk::<Degrees<f64>>(); x += mk::<Degrees<f32>>(); } // reject operator-precision
fn p16480() { let _ = mk::<Degrees<f64>>() - mk::<Degrees<f32>>(); } // reject operator-precision
fn p16481() { let _ = mk::<Degrees<f32>>() - mk::<Degrees<f64>>(); } // reject operator-precision
fn p16482() { let _ = mk::<Degrees<f64>>() - &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16483() { let _ = mk::<Degrees<f32>>() - &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16484() { let _ = &mk::<Degrees<f64>>() - mk::<Degrees<f32>>(); } // reject operator-precision
fn p16485() { let _ = &mk::<Degrees<f32>>() - mk::<Degrees<f64>>(); } // reject operator-precision
fn p16486() { let _ = &mk::<Degrees<f64>>() - &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16487() { let _ = &mk::<Degrees<f32>>() - &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16488() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Degrees<f32>>(); } // reject operator-precision
fn p16489() { let _ = mk::<Degrees<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p16490() { let _ = &mk::<Degrees<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p16491() { let _ = &mk::<Degrees<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p16492() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p16493() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p16494() { let _: f64 = mk::<Degrees<f64>>() / mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16495() { let _ = mk::<Degrees<f64>>() / mk::<Degrees<f32>>(); } // reject operator-precision
fn p16496() { let _ = mk::<Degrees<f32>>() / mk::<Degrees<f64>>(); } // reject operator-precision
fn p16497() { let _: f64 = mk::<Degrees<f64>>() / &mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16498() { let _ = mk::<Degrees<f64>>() / &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16499() { let _ = mk::<Degrees<f32>>() / &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16500() { let _: f64 = &mk::<Degrees<f64>>() / mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16501() { let _ = &mk::<Degrees<f64>>() / mk::<Degrees<f32>>(); } // reject operator-precision
fn p16502() { let _ = &mk::<Degrees<f32>>() / mk::<Degrees<f64>>(); } // reject operator-precision
fn p16503() { let _: f64 = &mk::<Degrees<f64>>() / &mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16504() { let _ = &mk::<Degrees<f64>>() / &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16505() { let _ = &mk::<Degrees<f32>>() / &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16506() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p16507() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p16508() { let _: Degrees<f64> = mk::<Degrees<f64>>() % mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16509() { let _ = mk::<Degrees<f64>>() % mk::<Degrees<f32>>(); } // reject operator-precision
fn p16510() { let _ = mk::<Degrees<f32>>() % mk::<Degrees<f64>>(); } // reject operator-precision
fn p16511() { let _: Degrees<f64> = mk::<Degrees<f64>>() % &mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16512() { let _ = mk::<Degrees<f64>>() % &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16513() { let _ = mk::<Degrees<f32>>() % &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16514() { let _: Degrees<f64> = &mk::<Degrees<f64>>() % mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16515() { let _ = &mk::<Degrees<f64>>() % mk::<Degrees<f32>>(); } // reject operator-precision
fn p16516() { let _ = &mk::<Degrees<f32>>() % mk::<Degrees<f64>>(); } // reject operator-precision
fn p16517() { let _: Degrees<f64> = &mk::<Degrees<f64>>() % &mk::<Degrees<f64>>(); } // accept operator-kinds
fn p16518() { let _ = &mk::<Degrees<f64>>() % &mk::<Degrees<f32>>(); } // reject operator-precision
fn p16519() { let _ = &mk::<Degrees<f32>>() % &mk::<Degrees<f64>>(); } // reject operator-precision
fn p16520() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Degrees<f64>>(); } // accept assigning-kinds
fn p16521() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Degrees<f32>>(); } // reject operator-precision
fn p16522() { let _: Degrees<f64> = mk::<Degrees<f64>>(); } // accept no-implicit-conversion
fn p16523() { let _: Degrees<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16524() { let _ = mk::<Degrees<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p16525() { let _ = mk::<Degrees<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p16526() { let _ = &mk::<Degrees<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p16527() { let _ = &mk::<Degrees<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p16528() { let mut x = mk::<Degrees<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p16529() { let mut x = mk::<Degrees<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p16530() { let _ = mk::<Degrees<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p16531() { let _ = mk::<Degrees<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p16532() { let _ = &mk::<Degrees<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p16533() { let _ = &mk::<Degrees<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p16534() { let mut x = mk::<Degrees<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p16535() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p16536() { let _: Degrees<f64> = mk::<Degrees<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p16537() { let _ = mk::<Degrees<f64>>() * mk::<f32>(); } // reject operator-precision
fn p16538() { let _ = mk::<Degrees<f32>>() * mk::<f64>(); } // reject operator-precision
fn p16539() { let _: Degrees<f64> = &mk::<Degrees<f64>>() * mk::<f64>(); } // accept operator-kinds
fn p16540() { let _ = &mk::<Degrees<f64>>() * mk::<f32>(); } // reject operator-precision
fn p16541() { let _ = &mk::<Degrees<f32>>() * mk::<f64>(); } // reject operator-precision
fn p16542() { let mut x = mk::<Degrees<f64>>(); x *= mk::<f64>(); } // accept assigning-kinds
fn p16543() { let mut x = mk::<Degrees<f64>>(); x *= mk::<f32>(); } // reject operator-precision
fn p16544() { let _: Degrees<f64> = mk::<Degrees<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p16545() { let _ = mk::<Degrees<f64>>() / mk::<f32>(); } // reject operator-precision
fn p16546() { let _ = mk::<Degrees<f32>>() / mk::<f64>(); } // reject operator-precision
fn p16547() { let _: Degrees<f64> = &mk::<Degrees<f64>>() / mk::<f64>(); } // accept operator-kinds
fn p16548() { let _ = &mk::<Degrees<f64>>() / mk::<f32>(); } // reject operator-precision
fn p16549() { let _ = &mk::<Degrees<f32>>() / mk::<f64>(); } // reject operator-precision
fn p16550() { let mut x = mk::<Degrees<f64>>(); x /= mk::<f64>(); } // accept assigning-kinds
fn p16551() { let mut x = mk::<Degrees<f64>>(); x /= mk::<f32>(); } // reject operator-precision
fn p16552() { let _ = mk::<Degrees<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p16553() { let _ = mk::<Degrees<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p16554() { let _: f32 = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16555() { let _ = mk::<Degrees<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16556() { let _ = mk::<Degrees<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16557() { let _ = &mk::<Degrees<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16558() { let _ = &mk::<Degrees<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16559() { let mut x = mk::<Degrees<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16560() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16561() { let _ = mk::<Degrees<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16562() { let _ = mk::<Degrees<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16563() { let _ = &mk::<Degrees<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16564() { let _ = &mk::<Degrees<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16565() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16566() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16567() { let _ = mk::<Degrees<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16568() { let _ = mk::<Degrees<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16569() { let _ = &mk::<Degrees<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16570() { let _ = &mk::<Degrees<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16571() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16572() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16573() { let _ = mk::<Degrees<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16574() { let _ = mk::<Degrees<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16575() { let _ = &mk::<Degrees<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16576() { let _ = &mk::<Degrees<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16577() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16578() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16579() { let _ = mk::<Degrees<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16580() { let _ = mk::<Degrees<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16581() { let _ = &mk::<Degrees<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16582() { let _ = &mk::<Degrees<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p16583() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16584() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p16585() { let _ = mk::<Degrees<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p16586() { let _ = mk::<Degrees<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p16587() { let _: Euler<Radians<f64>> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16588() { let _: Euler<Radians<f32>> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16589() { let _ = mk::<Degrees<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16590() { let _ = mk::<Degrees<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16591() { let _ = &mk::<Degrees<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16592() { let _ = &mk::<Degrees<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16593() { let mut x = mk::<Degrees<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16594() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16595() { let _ = mk::<Degrees<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16596() { let _ = mk::<Degrees<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16597() { let _ = &mk::<Degrees<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16598() { let _ = &mk::<Degrees<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16599() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16600() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16601() { let _ = mk::<Degrees<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16602() { let _ = mk::<Degrees<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16603() { let _ = &mk::<Degrees<f64>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16604() { let _ = &mk::<Degrees<f64>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16605() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16606() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16607() { let _ = mk::<Degrees<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16608() { let _ = mk::<Degrees<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16609() { let _ = &mk::<Degrees<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16610() { let _ = &mk::<Degrees<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16611() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16612() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16613() { let _ = mk::<Degrees<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16614() { let _ = mk::<Degrees<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16615() { let _ = &mk::<Degrees<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16616() { let _ = &mk::<Degrees<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p16617() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16618() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p16619() { let _ = mk::<Degrees<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p16620() { let _ = mk::<Degrees<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p16621() { let _: Unit<Vector3<f64>> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16622() { let _: Unit<Vector3<f32>> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16623() { let _ = mk::<Degrees<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16624() { let _ = mk::<Degrees<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16625() { let _ = &mk::<Degrees<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16626() { let _ = &mk::<Degrees<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16627() { let mut x = mk::<Degrees<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16628() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16629() { let _ = mk::<Degrees<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16630() { let _ = mk::<Degrees<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16631() { let _ = &mk::<Degrees<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16632() { let _ = &mk::<Degrees<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16633() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16634() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16635() { let _ = mk::<Degrees<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16636() { let _ = mk::<Degrees<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16637() { let _ = &mk::<Degrees<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16638() { let _ = &mk::<Degrees<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16639() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16640() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16641() { let _ = mk::<Degrees<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16642() { let _ = mk::<Degrees<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16643() { let _ = &mk::<Degrees<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16644() { let _ = &mk::<Degrees<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16645() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16646() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16647() { let _ = mk::<Degrees<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16648() { let _ = mk::<Degrees<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16649() { let _ = &mk::<Degrees<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16650() { let _ = &mk::<Degrees<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p16651() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16652() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p16653() { let _ = mk::<Degrees<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p16654() { let _ = mk::<Degrees<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p16655() { let _: Unit<Quaternion<f64>> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16656() { let _: Unit<Quaternion<f32>> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16657() { let _ = mk::<Degrees<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16658() { let _ = mk::<Degrees<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16659() { let _ = &mk::<Degrees<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16660() { let _ = &mk::<Degrees<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16661() { let mut x = mk::<Degrees<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16662() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16663() { let _ = mk::<Degrees<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16664() { let _ = mk::<Degrees<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16665() { let _ = &mk::<Degrees<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16666() { let _ = &mk::<Degrees<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16667() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16668() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16669() { let _ = mk::<Degrees<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16670() { let _ = mk::<Degrees<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16671() { let _ = &mk::<Degrees<f64>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16672() { let _ = &mk::<Degrees<f64>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16673() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16674() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16675() { let _ = mk::<Degrees<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16676() { let _ = mk::<Degrees<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16677() { let _ = &mk::<Degrees<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16678() { let _ = &mk::<Degrees<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16679() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16680() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16681() { let _ = mk::<Degrees<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16682() { let _ = mk::<Degrees<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16683() { let _ = &mk::<Degrees<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16684() { let _ = &mk::<Degrees<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p16685() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16686() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p16687() { let _ = mk::<Degrees<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p16688() { let _ = mk::<Degrees<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p16689() { let _: Rotation3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16690() { let _: Rotation3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16691() { let _ = mk::<Degrees<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16692() { let _ = mk::<Degrees<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16693() { let _ = &mk::<Degrees<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16694() { let _ = &mk::<Degrees<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16695() { let mut x = mk::<Degrees<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16696() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16697() { let _ = mk::<Degrees<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16698() { let _ = mk::<Degrees<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16699() { let _ = &mk::<Degrees<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16700() { let _ = &mk::<Degrees<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16701() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16702() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16703() { let _ = mk::<Degrees<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16704() { let _ = mk::<Degrees<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16705() { let _ = &mk::<Degrees<f64>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16706() { let _ = &mk::<Degrees<f64>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16707() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16708() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16709() { let _ = mk::<Degrees<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16710() { let _ = mk::<Degrees<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16711() { let _ = &mk::<Degrees<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16712() { let _ = &mk::<Degrees<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16713() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16714() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16715() { let _ = mk::<Degrees<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16716() { let _ = mk::<Degrees<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16717() { let _ = &mk::<Degrees<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16718() { let _ = &mk::<Degrees<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p16719() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16720() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p16721() { let _ = mk::<Degrees<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p16722() { let _ = mk::<Degrees<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p16723() { let _: Translation3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16724() { let _: Translation3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16725() { let _ = mk::<Degrees<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16726() { let _ = mk::<Degrees<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16727() { let _ = &mk::<Degrees<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16728() { let _ = &mk::<Degrees<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16729() { let mut x = mk::<Degrees<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16730() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16731() { let _ = mk::<Degrees<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16732() { let _ = mk::<Degrees<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16733() { let _ = &mk::<Degrees<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16734() { let _ = &mk::<Degrees<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16735() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16736() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16737() { let _ = mk::<Degrees<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16738() { let _ = mk::<Degrees<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16739() { let _ = &mk::<Degrees<f64>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16740() { let _ = &mk::<Degrees<f64>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16741() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16742() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16743() { let _ = mk::<Degrees<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16744() { let _ = mk::<Degrees<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16745() { let _ = &mk::<Degrees<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16746() { let _ = &mk::<Degrees<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16747() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16748() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16749() { let _ = mk::<Degrees<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16750() { let _ = mk::<Degrees<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16751() { let _ = &mk::<Degrees<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16752() { let _ = &mk::<Degrees<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p16753() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16754() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p16755() { let _ = mk::<Degrees<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p16756() { let _ = mk::<Degrees<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p16757() { let _: Scale3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16758() { let _: Scale3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16759() { let _ = mk::<Degrees<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16760() { let _ = mk::<Degrees<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16761() { let _ = &mk::<Degrees<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16762() { let _ = &mk::<Degrees<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16763() { let mut x = mk::<Degrees<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16764() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16765() { let _ = mk::<Degrees<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16766() { let _ = mk::<Degrees<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16767() { let _ = &mk::<Degrees<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16768() { let _ = &mk::<Degrees<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16769() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16770() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16771() { let _ = mk::<Degrees<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16772() { let _ = mk::<Degrees<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16773() { let _ = &mk::<Degrees<f64>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16774() { let _ = &mk::<Degrees<f64>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16775() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16776() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16777() { let _ = mk::<Degrees<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16778() { let _ = mk::<Degrees<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16779() { let _ = &mk::<Degrees<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16780() { let _ = &mk::<Degrees<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16781() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16782() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16783() { let _ = mk::<Degrees<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16784() { let _ = mk::<Degrees<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16785() { let _ = &mk::<Degrees<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16786() { let _ = &mk::<Degrees<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p16787() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16788() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p16789() { let _ = mk::<Degrees<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p16790() { let _ = mk::<Degrees<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p16791() { let _: Shear3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16792() { let _: Shear3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16793() { let _ = mk::<Degrees<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16794() { let _ = mk::<Degrees<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16795() { let _ = &mk::<Degrees<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16796() { let _ = &mk::<Degrees<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16797() { let mut x = mk::<Degrees<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16798() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16799() { let _ = mk::<Degrees<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16800() { let _ = mk::<Degrees<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16801() { let _ = &mk::<Degrees<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16802() { let _ = &mk::<Degrees<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16803() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16804() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16805() { let _ = mk::<Degrees<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16806() { let _ = mk::<Degrees<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16807() { let _ = &mk::<Degrees<f64>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16808() { let _ = &mk::<Degrees<f64>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16809() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16810() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16811() { let _ = mk::<Degrees<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16812() { let _ = mk::<Degrees<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16813() { let _ = &mk::<Degrees<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16814() { let _ = &mk::<Degrees<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16815() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16816() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16817() { let _ = mk::<Degrees<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16818() { let _ = mk::<Degrees<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16819() { let _ = &mk::<Degrees<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16820() { let _ = &mk::<Degrees<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p16821() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16822() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p16823() { let _ = mk::<Degrees<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p16824() { let _ = mk::<Degrees<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p16825() { let _: Reflection3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16826() { let _: Reflection3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16827() { let _ = mk::<Degrees<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16828() { let _ = mk::<Degrees<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16829() { let _ = &mk::<Degrees<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16830() { let _ = &mk::<Degrees<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16831() { let mut x = mk::<Degrees<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16832() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16833() { let _ = mk::<Degrees<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16834() { let _ = mk::<Degrees<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16835() { let _ = &mk::<Degrees<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16836() { let _ = &mk::<Degrees<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16837() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16838() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16839() { let _ = mk::<Degrees<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16840() { let _ = mk::<Degrees<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16841() { let _ = &mk::<Degrees<f64>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16842() { let _ = &mk::<Degrees<f64>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16843() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16844() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16845() { let _ = mk::<Degrees<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16846() { let _ = mk::<Degrees<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16847() { let _ = &mk::<Degrees<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16848() { let _ = &mk::<Degrees<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16849() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16850() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16851() { let _ = mk::<Degrees<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16852() { let _ = mk::<Degrees<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16853() { let _ = &mk::<Degrees<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16854() { let _ = &mk::<Degrees<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p16855() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16856() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p16857() { let _ = mk::<Degrees<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p16858() { let _ = mk::<Degrees<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p16859() { let _: Isometry3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16860() { let _: Isometry3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16861() { let _ = mk::<Degrees<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16862() { let _ = mk::<Degrees<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16863() { let _ = &mk::<Degrees<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16864() { let _ = &mk::<Degrees<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16865() { let mut x = mk::<Degrees<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16866() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16867() { let _ = mk::<Degrees<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16868() { let _ = mk::<Degrees<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16869() { let _ = &mk::<Degrees<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16870() { let _ = &mk::<Degrees<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16871() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16872() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16873() { let _ = mk::<Degrees<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16874() { let _ = mk::<Degrees<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16875() { let _ = &mk::<Degrees<f64>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16876() { let _ = &mk::<Degrees<f64>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16877() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16878() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16879() { let _ = mk::<Degrees<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16880() { let _ = mk::<Degrees<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16881() { let _ = &mk::<Degrees<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16882() { let _ = &mk::<Degrees<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16883() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16884() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16885() { let _ = mk::<Degrees<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16886() { let _ = mk::<Degrees<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16887() { let _ = &mk::<Degrees<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16888() { let _ = &mk::<Degrees<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p16889() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16890() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p16891() { let _ = mk::<Degrees<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p16892() { let _ = mk::<Degrees<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p16893() { let _: Similarity3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16894() { let _: Similarity3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16895() { let _ = mk::<Degrees<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16896() { let _ = mk::<Degrees<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16897() { let _ = &mk::<Degrees<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16898() { let _ = &mk::<Degrees<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16899() { let mut x = mk::<Degrees<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16900() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16901() { let _ = mk::<Degrees<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16902() { let _ = mk::<Degrees<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16903() { let _ = &mk::<Degrees<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16904() { let _ = &mk::<Degrees<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16905() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16906() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16907() { let _ = mk::<Degrees<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16908() { let _ = mk::<Degrees<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16909() { let _ = &mk::<Degrees<f64>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16910() { let _ = &mk::<Degrees<f64>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16911() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16912() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16913() { let _ = mk::<Degrees<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16914() { let _ = mk::<Degrees<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16915() { let _ = &mk::<Degrees<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16916() { let _ = &mk::<Degrees<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16917() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16918() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16919() { let _ = mk::<Degrees<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16920() { let _ = mk::<Degrees<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16921() { let _ = &mk::<Degrees<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16922() { let _ = &mk::<Degrees<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p16923() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16924() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p16925() { let _ = mk::<Degrees<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p16926() { let _ = mk::<Degrees<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p16927() { let _: Transform3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16928() { let _: Transform3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16929() { let _ = mk::<Degrees<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16930() { let _ = mk::<Degrees<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16931() { let _ = &mk::<Degrees<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16932() { let _ = &mk::<Degrees<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16933() { let mut x = mk::<Degrees<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16934() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16935() { let _ = mk::<Degrees<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16936() { let _ = mk::<Degrees<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16937() { let _ = &mk::<Degrees<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16938() { let _ = &mk::<Degrees<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16939() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16940() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16941() { let _ = mk::<Degrees<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16942() { let _ = mk::<Degrees<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16943() { let _ = &mk::<Degrees<f64>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16944() { let _ = &mk::<Degrees<f64>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16945() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16946() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16947() { let _ = mk::<Degrees<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16948() { let _ = mk::<Degrees<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16949() { let _ = &mk::<Degrees<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16950() { let _ = &mk::<Degrees<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16951() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16952() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16953() { let _ = mk::<Degrees<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16954() { let _ = mk::<Degrees<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16955() { let _ = &mk::<Degrees<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16956() { let _ = &mk::<Degrees<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p16957() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16958() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p16959() { let _ = mk::<Degrees<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p16960() { let _ = mk::<Degrees<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p16961() { let _: Perspective3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16962() { let _: Perspective3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16963() { let _ = mk::<Degrees<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16964() { let _ = mk::<Degrees<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16965() { let _ = &mk::<Degrees<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16966() { let _ = &mk::<Degrees<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16967() { let mut x = mk::<Degrees<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16968() { let mut x = mk::<Degrees<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16969() { let _ = mk::<Degrees<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16970() { let _ = mk::<Degrees<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16971() { let _ = &mk::<Degrees<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16972() { let _ = &mk::<Degrees<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16973() { let mut x = mk::<Degrees<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16974() { let mut x = mk::<Degrees<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16975() { let _ = mk::<Degrees<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16976() { let _ = mk::<Degrees<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16977() { let _ = &mk::<Degrees<f64>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16978() { let _ = &mk::<Degrees<f64>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16979() { let mut x = mk::<Degrees<f64>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16980() { let mut x = mk::<Degrees<f64>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16981() { let _ = mk::<Degrees<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16982() { let _ = mk::<Degrees<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16983() { let _ = &mk::<Degrees<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16984() { let _ = &mk::<Degrees<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16985() { let mut x = mk::<Degrees<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16986() { let mut x = mk::<Degrees<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16987() { let _ = mk::<Degrees<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16988() { let _ = mk::<Degrees<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16989() { let _ = &mk::<Degrees<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16990() { let _ = &mk::<Degrees<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p16991() { let mut x = mk::<Degrees<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16992() { let mut x = mk::<Degrees<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p16993() { let _ = mk::<Degrees<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p16994() { let _ = mk::<Degrees<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p16995() { let _: Orthographic3<f64> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16996() { let _: Orthographic3<f32> = mk::<Degrees<f64>>(); } // reject no-implicit-conversion
fn p16997() { let _: Degrees<f64> = -mk::<Degrees<f64>>(); } // accept negation
fn p16998() { let _: Degrees<f64> = -&mk::<Degrees<f64>>(); } // accept negation
fn p16999() { let _ = !mk::<Degrees<f64>>(); } // reject negation
fn p17000() { let _ = !&mk::<Degrees<f64>>(); } // reject negation
fn p17001() { let _ = mk::<f64>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17002() { let _ = mk::<f64>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17003() { let _ = &mk::<f64>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17004() { let _ = &mk::<f64>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17005() { let mut x = mk::<f64>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17006() { let mut x = mk::<f64>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17007() { let _ = mk::<f64>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17008() { let _ = mk::<f64>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17009() { let _ = &mk::<f64>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17010() { let _ = &mk::<f64>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17011() { let mut x = mk::<f64>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17012() { let mut x = mk::<f64>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17013() { let _: Vector3<f64> = mk::<f64>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p17014() { let _ = mk::<f64>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p17015() { let _ = mk::<f32>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p17016() { let _: Vector3<f64> = mk::<f64>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p17017() { let _ = mk::<f64>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p17018() { let _ = mk::<f32>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p17019() { let _: Vector3<f64> = &mk::<f64>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p17020() { let _ = &mk::<f64>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p17021() { let _ = &mk::<f32>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p17022() { let _: Vector3<f64> = &mk::<f64>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p17023() { let _ = &mk::<f64>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p17024() { let _ = &mk::<f32>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p17025() { let mut x = mk::<f64>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17026() { let mut x = mk::<f64>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17027() { let _ = mk::<f64>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17028() { let _ = mk::<f64>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17029() { let _ = &mk::<f64>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17030() { let _ = &mk::<f64>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17031() { let mut x = mk::<f64>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17032() { let mut x = mk::<f64>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17033() { let _ = mk::<f64>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17034() { let _ = mk::<f64>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17035() { let _ = &mk::<f64>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17036() { let _ = &mk::<f64>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17037() { let mut x = mk::<f64>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17038() { let mut x = mk::<f64>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17039() { let _ = mk::<f64>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p17040() { let _ = mk::<f64>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p17041() { let _: Vector3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17042() { let _: Vector3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17043() { let _ = mk::<f64>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17044() { let _ = mk::<f64>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17045() { let _ = &mk::<f64>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17046() { let _ = &mk::<f64>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17047() { let mut x = mk::<f64>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17048() { let mut x = mk::<f64>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17049() { let _ = mk::<f64>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17050() { let _ = mk::<f64>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17051() { let _ = &mk::<f64>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17052() { let _ = &mk::<f64>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17053() { let mut x = mk::<f64>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17054() { let mut x = mk::<f64>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17055() { let _: Vector4<f64> = mk::<f64>() * mk::<Vector4<f64>>(); } // accept operator-kinds
fn p17056() { let _ = mk::<f64>() * mk::<Vector4<f32>>(); } // reject operator-precision
fn p17057() { let _ = mk::<f32>() * mk::<Vector4<f64>>(); } // reject operator-precision
fn p17058() { let _: Vector4<f64> = mk::<f64>() * &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p17059() { let _ = mk::<f64>() * &mk::<Vector4<f32>>(); } // reject operator-precision
fn p17060() { let _ = mk::<f32>() * &mk::<Vector4<f64>>(); } // reject operator-precision
fn p17061() { let _: Vector4<f64> = &mk::<f64>() * mk::<Vector4<f64>>(); } // accept operator-kinds
fn p17062() { let _ = &mk::<f64>() * mk::<Vector4<f32>>(); } // reject operator-precision
fn p17063() { let _ = &mk::<f32>() * mk::<Vector4<f64>>(); } // reject operator-precision
fn p17064() { let _: Vector4<f64> = &mk::<f64>() * &mk::<Vector4<f64>>(); } // accept operator-kinds
fn p17065() { let _ = &mk::<f64>() * &mk::<Vector4<f32>>(); } // reject operator-precision
fn p17066() { let _ = &mk::<f32>() * &mk::<Vector4<f64>>(); } // reject operator-precision
fn p17067() { let mut x = mk::<f64>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17068() { let mut x = mk::<f64>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17069() { let _ = mk::<f64>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17070() { let _ = mk::<f64>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17071() { let _ = &mk::<f64>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17072() { let _ = &mk::<f64>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17073() { let mut x = mk::<f64>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17074() { let mut x = mk::<f64>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17075() { let _ = mk::<f64>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17076() { let _ = mk::<f64>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17077() { let _ = &mk::<f64>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17078() { let _ = &mk::<f64>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17079() { let mut x = mk::<f64>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17080() { let mut x = mk::<f64>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17081() { let _ = mk::<f64>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p17082() { let _ = mk::<f64>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p17083() { let _: Vector4<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17084() { let _: Vector4<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17085() { let _ = mk::<f64>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p17086() { let _ = mk::<f64>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17087() { let _ = &mk::<f64>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p17088() { let _ = &mk::<f64>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17089() { let mut x = mk::<f64>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17090() { let mut x = mk::<f64>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17091() { let _ = mk::<f64>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p17092() { let _ = mk::<f64>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17093() { let _ = &mk::<f64>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p17094() { let _ = &mk::<f64>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17095() { let mut x = mk::<f64>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17096() { let mut x = mk::<f64>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17097() { let _: Point3<f64> = mk::<f64>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p17098() { let _ = mk::<f64>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p17099() { let _ = mk::<f32>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p17100() { let _: Point3<f64> = &mk::<f64>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p17101() { let _ = &mk::<f64>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p17102() { let _ = &mk::<f32>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p17103() { let mut x = mk::<f64>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17104() { let mut x = mk::<f64>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17105() { let _ = mk::<f64>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p17106() { let _ = mk::<f64>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17107() { let _ = &mk::<f64>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p17108() { let _ = &mk::<f64>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17109() { let mut x = mk::<f64>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17110() { let mut x = mk::<f64>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17111() { let _ = mk::<f64>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p17112() { let _ = mk::<f64>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17113() { let _ = &mk::<f64>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p17114() { let _ = &mk::<f64>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17115() { let mut x = mk::<f64>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17116() { let mut x = mk::<f64>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17117() { let _ = mk::<f64>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p17118() { let _ = mk::<f64>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p17119() { let _: Point3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17120() { let _: Point3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17121() { let _ = mk::<f64>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17122() { let _ = mk::<f64>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17123() { let _ = &mk::<f64>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17124() { let _ = &mk::<f64>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17125() { let mut x = mk::<f64>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17126() { let mut x = mk::<f64>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17127() { let _ = mk::<f64>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17128() { let _ = mk::<f64>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17129() { let _ = &mk::<f64>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17130() { let _ = &mk::<f64>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17131() { let mut x = mk::<f64>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17132() { let mut x = mk::<f64>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17133() { let _: Matrix3x3<f64> = mk::<f64>() * mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p17134() { let _ = mk::<f64>() * mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p17135() { let _ = mk::<f32>() * mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p17136() { let _: Matrix3x3<f64> = mk::<f64>() * &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p17137() { let _ = mk::<f64>() * &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p17138() { let _ = mk::<f32>() * &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p17139() { let _: Matrix3x3<f64> = &mk::<f64>() * mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p17140() { let _ = &mk::<f64>() * mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p17141() { let _ = &mk::<f32>() * mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p17142() { let _: Matrix3x3<f64> = &mk::<f64>() * &mk::<Matrix3x3<f64>>(); } // accept operator-kinds
fn p17143() { let _ = &mk::<f64>() * &mk::<Matrix3x3<f32>>(); } // reject operator-precision
fn p17144() { let _ = &mk::<f32>() * &mk::<Matrix3x3<f64>>(); } // reject operator-precision
fn p17145() { let mut x = mk::<f64>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17146() { let mut x = mk::<f64>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17147() { let _ = mk::<f64>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17148() { let _ = mk::<f64>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17149() { let _ = &mk::<f64>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17150() { let _ = &mk::<f64>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17151() { let mut x = mk::<f64>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17152() { let mut x = mk::<f64>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17153() { let _ = mk::<f64>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17154() { let _ = mk::<f64>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17155() { let _ = &mk::<f64>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17156() { let _ = &mk::<f64>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17157() { let mut x = mk::<f64>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17158() { let mut x = mk::<f64>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17159() { let _ = mk::<f64>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p17160() { let _ = mk::<f64>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p17161() { let _: Matrix3x3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17162() { let _: Matrix3x3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17163() { let _ = mk::<f64>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17164() { let _ = mk::<f64>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17165() { let _ = &mk::<f64>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17166() { let _ = &mk::<f64>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17167() { let mut x = mk::<f64>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17168() { let mut x = mk::<f64>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17169() { let _ = mk::<f64>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17170() { let _ = mk::<f64>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17171() { let _ = &mk::<f64>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17172() { let _ = &mk::<f64>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17173() { let mut x = mk::<f64>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17174() { let mut x = mk::<f64>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17175() { let _: Matrix4x4<f64> = mk::<f64>() * mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p17176() { let _ = mk::<f64>() * mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p17177() { let _ = mk::<f32>() * mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p17178() { let _: Matrix4x4<f64> = mk::<f64>() * &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p17179() { let _ = mk::<f64>() * &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p17180() { let _ = mk::<f32>() * &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p17181() { let _: Matrix4x4<f64> = &mk::<f64>() * mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p17182() { let _ = &mk::<f64>() * mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p17183() { let _ = &mk::<f32>() * mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p17184() { let _: Matrix4x4<f64> = &mk::<f64>() * &mk::<Matrix4x4<f64>>(); } // accept operator-kinds
fn p17185() { let _ = &mk::<f64>() * &mk::<Matrix4x4<f32>>(); } // reject operator-precision
fn p17186() { let _ = &mk::<f32>() * &mk::<Matrix4x4<f64>>(); } // reject operator-precision
fn p17187() { let mut x = mk::<f64>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17188() { let mut x = mk::<f64>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17189() { let _ = mk::<f64>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17190() { let _ = mk::<f64>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17191() { let _ = &mk::<f64>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17192() { let _ = &mk::<f64>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17193() { let mut x = mk::<f64>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17194() { let mut x = mk::<f64>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17195() { let _ = mk::<f64>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17196() { let _ = mk::<f64>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17197() { let _ = &mk::<f64>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17198() { let _ = &mk::<f64>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17199() { let mut x = mk::<f64>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17200() { let mut x = mk::<f64>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17201() { let _ = mk::<f64>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p17202() { let _ = mk::<f64>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p17203() { let _: Matrix4x4<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17204() { let _: Matrix4x4<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17205() { let _ = mk::<f64>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17206() { let _ = mk::<f64>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17207() { let _ = &mk::<f64>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17208() { let _ = &mk::<f64>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17209() { let mut x = mk::<f64>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17210() { let mut x = mk::<f64>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17211() { let _ = mk::<f64>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17212() { let _ = mk::<f64>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17213() { let _ = &mk::<f64>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17214() { let _ = &mk::<f64>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17215() { let mut x = mk::<f64>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17216() { let mut x = mk::<f64>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17217() { let _: RowVector3<f64> = mk::<f64>() * mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p17218() { let _ = mk::<f64>() * mk::<RowVector3<f32>>(); } // reject operator-precision
fn p17219() { let _ = mk::<f32>() * mk::<RowVector3<f64>>(); } // reject operator-precision
fn p17220() { let _: RowVector3<f64> = mk::<f64>() * &mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p17221() { let _ = mk::<f64>() * &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p17222() { let _ = mk::<f32>() * &mk::<RowVector3<f64>>(); } // reject operator-precision
fn p17223() { let _: RowVector3<f64> = &mk::<f64>() * mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p17224() { let _ = &mk::<f64>() * mk::<RowVector3<f32>>(); } // reject operator-precision
fn p17225() { let _ = &mk::<f32>() * mk::<RowVector3<f64>>(); } // reject operator-precision
fn p17226() { let _: RowVector3<f64> = &mk::<f64>() * &mk::<RowVector3<f64>>(); } // accept operator-kinds
fn p17227() { let _ = &mk::<f64>() * &mk::<RowVector3<f32>>(); } // reject operator-precision
fn p17228() { let _ = &mk::<f32>() * &mk::<RowVector3<f64>>(); } // reject operator-precision
fn p17229() { let mut x = mk::<f64>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17230() { let mut x = mk::<f64>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17231() { let _ = mk::<f64>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17232() { let _ = mk::<f64>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17233() { let _ = &mk::<f64>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17234() { let _ = &mk::<f64>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17235() { let mut x = mk::<f64>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17236() { let mut x = mk::<f64>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17237() { let _ = mk::<f64>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17238() { let _ = mk::<f64>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17239() { let _ = &mk::<f64>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17240() { let _ = &mk::<f64>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17241() { let mut x = mk::<f64>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17242() { let mut x = mk::<f64>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17243() { let _ = mk::<f64>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p17244() { let _ = mk::<f64>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p17245() { let _: RowVector3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17246() { let _: RowVector3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17247() { let _: Quaternion<f64> = mk::<f64>() * mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p17248() { let _ = mk::<f64>() * mk::<Quaternion<f32>>(); } // reject operator-precision
fn p17249() { let _ = mk::<f32>() * mk::<Quaternion<f64>>(); } // reject operator-precision
fn p17250() { let _: Quaternion<f64> = mk::<f64>() * &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p17251() { let _ = mk::<f64>() * &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p17252() { let _ = mk::<f32>() * &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p17253() { let _: Quaternion<f64> = &mk::<f64>() * mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p17254() { let _ = &mk::<f64>() * mk::<Quaternion<f32>>(); } // reject operator-precision
fn p17255() { let _ = &mk::<f32>() * mk::<Quaternion<f64>>(); } // reject operator-precision
fn p17256() { let _: Quaternion<f64> = &mk::<f64>() * &mk::<Quaternion<f64>>(); } // accept operator-kinds
fn p17257() { let _ = &mk::<f64>() * &mk::<Quaternion<f32>>(); } // reject operator-precision
fn p17258() { let _ = &mk::<f32>() * &mk::<Quaternion<f64>>(); } // reject operator-precision
fn p17259() { let mut x = mk::<f64>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p17260() { let mut x = mk::<f64>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p17261() { let _ = mk::<f64>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p17262() { let _ = mk::<f64>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p17263() { let _: Quaternion<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17264() { let _: Quaternion<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17265() { let _: Complex<f64> = mk::<f64>() + mk::<Complex<f64>>(); } // accept operator-kinds
fn p17266() { let _ = mk::<f64>() + mk::<Complex<f32>>(); } // reject operator-precision
fn p17267() { let _ = mk::<f32>() + mk::<Complex<f64>>(); } // reject operator-precision
fn p17268() { let _: Complex<f64> = mk::<f64>() + &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17269() { let _ = mk::<f64>() + &mk::<Complex<f32>>(); } // reject operator-precision
fn p17270() { let _ = mk::<f32>() + &mk::<Complex<f64>>(); } // reject operator-precision
fn p17271() { let _: Complex<f64> = &mk::<f64>() + mk::<Complex<f64>>(); } // accept operator-kinds
fn p17272() { let _ = &mk::<f64>() + mk::<Complex<f32>>(); } // reject operator-precision
fn p17273() { let _ = &mk::<f32>() + mk::<Complex<f64>>(); } // reject operator-precision
fn p17274() { let _: Complex<f64> = &mk::<f64>() + &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17275() { let _ = &mk::<f64>() + &mk::<Complex<f32>>(); } // reject operator-precision
fn p17276() { let _ = &mk::<f32>() + &mk::<Complex<f64>>(); } // reject operator-precision
fn p17277() { let mut x = mk::<f64>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p17278() { let mut x = mk::<f64>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p17279() { let _: Complex<f64> = mk::<f64>() - mk::<Complex<f64>>(); } // accept operator-kinds
fn p17280() { let _ = mk::<f64>() - mk::<Complex<f32>>(); } // reject operator-precision
fn p17281() { let _ = mk::<f32>() - mk::<Complex<f64>>(); } // reject operator-precision
fn p17282() { let _: Complex<f64> = mk::<f64>() - &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17283() { let _ = mk::<f64>() - &mk::<Complex<f32>>(); } // reject operator-precision
fn p17284() { let _ = mk::<f32>() - &mk::<Complex<f64>>(); } // reject operator-precision
fn p17285() { let _: Complex<f64> = &mk::<f64>() - mk::<Complex<f64>>(); } // accept operator-kinds
fn p17286() { let _ = &mk::<f64>() - mk::<Complex<f32>>(); } // reject operator-precision
fn p17287() { let _ = &mk::<f32>() - mk::<Complex<f64>>(); } // reject operator-precision
fn p17288() { let _: Complex<f64> = &mk::<f64>() - &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17289() { let _ = &mk::<f64>() - &mk::<Complex<f32>>(); } // reject operator-precision
fn p17290() { let _ = &mk::<f32>() - &mk::<Complex<f64>>(); } // reject operator-precision
fn p17291() { let mut x = mk::<f64>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p17292() { let mut x = mk::<f64>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p17293() { let _: Complex<f64> = mk::<f64>() * mk::<Complex<f64>>(); } // accept operator-kinds
fn p17294() { let _ = mk::<f64>() * mk::<Complex<f32>>(); } // reject operator-precision
fn p17295() { let _ = mk::<f32>() * mk::<Complex<f64>>(); } // reject operator-precision
fn p17296() { let _: Complex<f64> = mk::<f64>() * &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17297() { let _ = mk::<f64>() * &mk::<Complex<f32>>(); } // reject operator-precision
fn p17298() { let _ = mk::<f32>() * &mk::<Complex<f64>>(); } // reject operator-precision
fn p17299() { let _: Complex<f64> = &mk::<f64>() * mk::<Complex<f64>>(); } // accept operator-kinds
fn p17300() { let _ = &mk::<f64>() * mk::<Complex<f32>>(); } // reject operator-precision
fn p17301() { let _ = &mk::<f32>() * mk::<Complex<f64>>(); } // reject operator-precision
fn p17302() { let _: Complex<f64> = &mk::<f64>() * &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17303() { let _ = &mk::<f64>() * &mk::<Complex<f32>>(); } // reject operator-precision
fn p17304() { let _ = &mk::<f32>() * &mk::<Complex<f64>>(); } // reject operator-precision
fn p17305() { let mut x = mk::<f64>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p17306() { let mut x = mk::<f64>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p17307() { let _: Complex<f64> = mk::<f64>() / mk::<Complex<f64>>(); } // accept operator-kinds
fn p17308() { let _ = mk::<f64>() / mk::<Complex<f32>>(); } // reject operator-precision
fn p17309() { let _ = mk::<f32>() / mk::<Complex<f64>>(); } // reject operator-precision
fn p17310() { let _: Complex<f64> = mk::<f64>() / &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17311() { let _ = mk::<f64>() / &mk::<Complex<f32>>(); } // reject operator-precision
fn p17312() { let _ = mk::<f32>() / &mk::<Complex<f64>>(); } // reject operator-precision
fn p17313() { let _: Complex<f64> = &mk::<f64>() / mk::<Complex<f64>>(); } // accept operator-kinds
fn p17314() { let _ = &mk::<f64>() / mk::<Complex<f32>>(); } // reject operator-precision
fn p17315() { let _ = &mk::<f32>() / mk::<Complex<f64>>(); } // reject operator-precision
fn p17316() { let _: Complex<f64> = &mk::<f64>() / &mk::<Complex<f64>>(); } // accept operator-kinds
fn p17317() { let _ = &mk::<f64>() / &mk::<Complex<f32>>(); } // reject operator-precision
fn p17318() { let _ = &mk::<f32>() / &mk::<Complex<f64>>(); } // reject operator-precision
fn p17319() { let _ = mk::<f64>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p17320() { let _ = mk::<f64>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p17321() { let _: Complex<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17322() { let _: Complex<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17323() { let _ = mk::<f64>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p17324() { let _ = mk::<f64>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17325() { let _ = &mk::<f64>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p17326() { let _ = &mk::<f64>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17327() { let mut x = mk::<f64>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17328() { let mut x = mk::<f64>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17329() { let _ = mk::<f64>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p17330() { let _ = mk::<f64>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17331() { let _ = &mk::<f64>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p17332() { let _ = &mk::<f64>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17333() { let mut x = mk::<f64>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17334() { let mut x = mk::<f64>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17335() { let _ = mk::<f64>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p17336() { let _ = mk::<f64>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17337() { let _ = &mk::<f64>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p17338() { let _ = &mk::<f64>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17339() { let mut x = mk::<f64>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17340() { let mut x = mk::<f64>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17341() { let _ = mk::<f64>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p17342() { let _ = mk::<f64>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17343() { let _ = &mk::<f64>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p17344() { let _ = &mk::<f64>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p17345() { let mut x = mk::<f64>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17346() { let mut x = mk::<f64>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p17347() { let _ = mk::<f64>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p17348() { let _ = mk::<f64>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p17349() { let _: Radians<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17350() { let _: Radians<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17351() { let _ = mk::<f64>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17352() { let _ = mk::<f64>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17353() { let _ = &mk::<f64>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17354() { let _ = &mk::<f64>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17355() { let mut x = mk::<f64>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17356() { let mut x = mk::<f64>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17357() { let _ = mk::<f64>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17358() { let _ = mk::<f64>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17359() { let _ = &mk::<f64>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17360() { let _ = &mk::<f64>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17361() { let mut x = mk::<f64>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17362() { let mut x = mk::<f64>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17363() { let _ = mk::<f64>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17364() { let _ = mk::<f64>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17365() { let _ = &mk::<f64>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17366() { let _ = &mk::<f64>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17367() { let mut x = mk::<f64>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17368() { let mut x = mk::<f64>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17369() { let _ = mk::<f64>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17370() { let _ = mk::<f64>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17371() { let _ = &mk::<f64>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17372() { let _ = &mk::<f64>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p17373() { let mut x = mk::<f64>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17374() { let mut x = mk::<f64>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p17375() { let _ = mk::<f64>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p17376() { let _ = mk::<f64>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p17377() { let _: Degrees<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17378() { let _: Degrees<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17379() { let mut x = mk::<f64>(); x += mk::<f32>(); } // reject operator-precision
fn p17380() { let mut x = mk::<f64>(); x += &mk::<f32>(); } // reject operator-precision
fn p17381() { let mut x = mk::<f64>(); x -= mk::<f32>(); } // reject operator-precision
fn p17382() { let mut x = mk::<f64>(); x -= &mk::<f32>(); } // reject operator-precision
fn p17383() { let mut x = mk::<f64>(); x *= mk::<f32>(); } // reject operator-precision
fn p17384() { let mut x = mk::<f64>(); x *= &mk::<f32>(); } // reject operator-precision
fn p17385() { let mut x = mk::<f64>(); x /= mk::<f32>(); } // reject operator-precision
fn p17386() { let mut x = mk::<f64>(); x /= &mk::<f32>(); } // reject operator-precision
fn p17387() { let mut x = mk::<f64>(); x %= mk::<f32>(); } // reject operator-precision
fn p17388() { let mut x = mk::<f64>(); x %= &mk::<f32>(); } // reject operator-precision
fn p17389() { let _: f32 = mk::<f64>(); } // reject no-implicit-conversion
fn p17390() { let _ = mk::<f64>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17391() { let _ = mk::<f64>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17392() { let _ = &mk::<f64>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17393() { let _ = &mk::<f64>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17394() { let mut x = mk::<f64>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17395() { let mut x = mk::<f64>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17396() { let _ = mk::<f64>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17397() { let _ = mk::<f64>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17398() { let _ = &mk::<f64>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17399() { let _ = &mk::<f64>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17400() { let mut x = mk::<f64>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17401() { let mut x = mk::<f64>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17402() { let _ = mk::<f64>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17403() { let _ = mk::<f64>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17404() { let _ = &mk::<f64>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17405() { let _ = &mk::<f64>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17406() { let mut x = mk::<f64>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17407() { let mut x = mk::<f64>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17408() { let _ = mk::<f64>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17409() { let _ = mk::<f64>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17410() { let _ = &mk::<f64>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17411() { let _ = &mk::<f64>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p17412() { let mut x = mk::<f64>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17413() { let mut x = mk::<f64>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p17414() { let _ = mk::<f64>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p17415() { let _ = mk::<f64>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p17416() { let _: Euler<Radians<f64>> = mk::<f64>(); } // reject no-implicit-conversion
fn p17417() { let _: Euler<Radians<f32>> = mk::<f64>(); } // reject no-implicit-conversion
fn p17418() { let _ = mk::<f64>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17419() { let _ = mk::<f64>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17420() { let _ = &mk::<f64>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17421() { let _ = &mk::<f64>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17422() { let mut x = mk::<f64>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17423() { let mut x = mk::<f64>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17424() { let _ = mk::<f64>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17425() { let _ = mk::<f64>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17426() { let _ = &mk::<f64>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17427() { let _ = &mk::<f64>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17428() { let mut x = mk::<f64>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17429() { let mut x = mk::<f64>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17430() { let _ = mk::<f64>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17431() { let _ = mk::<f64>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17432() { let _ = &mk::<f64>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17433() { let _ = &mk::<f64>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17434() { let mut x = mk::<f64>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17435() { let mut x = mk::<f64>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17436() { let _ = mk::<f64>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17437() { let _ = mk::<f64>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17438() { let _ = &mk::<f64>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17439() { let _ = &mk::<f64>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p17440() { let mut x = mk::<f64>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17441() { let mut x = mk::<f64>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p17442() { let _ = mk::<f64>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p17443() { let _ = mk::<f64>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p17444() { let _: Unit<Vector3<f64>> = mk::<f64>(); } // reject no-implicit-conversion
fn p17445() { let _: Unit<Vector3<f32>> = mk::<f64>(); } // reject no-implicit-conversion
fn p17446() { let _ = mk::<f64>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17447() { let _ = mk::<f64>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17448() { let _ = &mk::<f64>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17449() { let _ = &mk::<f64>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17450() { let mut x = mk::<f64>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17451() { let mut x = mk::<f64>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17452() { let _ = mk::<f64>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17453() { let _ = mk::<f64>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17454() { let _ = &mk::<f64>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17455() { let _ = &mk::<f64>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17456() { let mut x = mk::<f64>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17457() { let mut x = mk::<f64>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17458() { let _ = mk::<f64>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17459() { let _ = mk::<f64>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17460() { let _ = &mk::<f64>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17461() { let _ = &mk::<f64>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17462() { let mut x = mk::<f64>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17463() { let mut x = mk::<f64>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17464() { let _ = mk::<f64>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17465() { let _ = mk::<f64>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17466() { let _ = &mk::<f64>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17467() { let _ = &mk::<f64>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p17468() { let mut x = mk::<f64>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17469() { let mut x = mk::<f64>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p17470() { let _ = mk::<f64>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p17471() { let _ = mk::<f64>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p17472() { let _: Unit<Quaternion<f64>> = mk::<f64>(); } // reject no-implicit-conversion
fn p17473() { let _: Unit<Quaternion<f32>> = mk::<f64>(); } // reject no-implicit-conversion
fn p17474() { let _ = mk::<f64>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17475() { let _ = mk::<f64>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17476() { let _ = &mk::<f64>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17477() { let _ = &mk::<f64>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17478() { let mut x = mk::<f64>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17479() { let mut x = mk::<f64>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17480() { let _ = mk::<f64>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17481() { let _ = mk::<f64>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17482() { let _ = &mk::<f64>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17483() { let _ = &mk::<f64>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17484() { let mut x = mk::<f64>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17485() { let mut x = mk::<f64>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17486() { let _ = mk::<f64>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17487() { let _ = mk::<f64>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17488() { let _ = &mk::<f64>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17489() { let _ = &mk::<f64>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17490() { let mut x = mk::<f64>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17491() { let mut x = mk::<f64>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17492() { let _ = mk::<f64>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17493() { let _ = mk::<f64>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17494() { let _ = &mk::<f64>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17495() { let _ = &mk::<f64>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17496() { let mut x = mk::<f64>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17497() { let mut x = mk::<f64>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17498() { let _ = mk::<f64>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17499() { let _ = mk::<f64>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17500() { let _ = &mk::<f64>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17501() { let _ = &mk::<f64>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p17502() { let mut x = mk::<f64>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17503() { let mut x = mk::<f64>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p17504() { let _ = mk::<f64>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p17505() { let _ = mk::<f64>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p17506() { let _: Rotation3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17507() { let _: Rotation3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17508() { let _ = mk::<f64>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17509() { let _ = mk::<f64>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17510() { let _ = &mk::<f64>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17511() { let _ = &mk::<f64>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17512() { let mut x = mk::<f64>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17513() { let mut x = mk::<f64>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17514() { let _ = mk::<f64>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17515() { let _ = mk::<f64>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17516() { let _ = &mk::<f64>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17517() { let _ = &mk::<f64>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17518() { let mut x = mk::<f64>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17519() { let mut x = mk::<f64>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17520() { let _ = mk::<f64>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17521() { let _ = mk::<f64>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17522() { let _ = &mk::<f64>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17523() { let _ = &mk::<f64>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17524() { let mut x = mk::<f64>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17525() { let mut x = mk::<f64>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17526() { let _ = mk::<f64>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17527() { let _ = mk::<f64>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17528() { let _ = &mk::<f64>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17529() { let _ = &mk::<f64>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17530() { let mut x = mk::<f64>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17531() { let mut x = mk::<f64>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17532() { let _ = mk::<f64>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17533() { let _ = mk::<f64>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17534() { let _ = &mk::<f64>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17535() { let _ = &mk::<f64>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p17536() { let mut x = mk::<f64>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17537() { let mut x = mk::<f64>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p17538() { let _ = mk::<f64>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p17539() { let _ = mk::<f64>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p17540() { let _: Translation3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17541() { let _: Translation3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17542() { let _ = mk::<f64>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17543() { let _ = mk::<f64>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17544() { let _ = &mk::<f64>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17545() { let _ = &mk::<f64>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17546() { let mut x = mk::<f64>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17547() { let mut x = mk::<f64>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17548() { let _ = mk::<f64>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17549() { let _ = mk::<f64>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17550() { let _ = &mk::<f64>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17551() { let _ = &mk::<f64>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17552() { let mut x = mk::<f64>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17553() { let mut x = mk::<f64>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17554() { let _ = mk::<f64>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17555() { let _ = mk::<f64>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17556() { let _ = &mk::<f64>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17557() { let _ = &mk::<f64>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17558() { let mut x = mk::<f64>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17559() { let mut x = mk::<f64>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17560() { let _ = mk::<f64>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17561() { let _ = mk::<f64>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17562() { let _ = &mk::<f64>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17563() { let _ = &mk::<f64>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17564() { let mut x = mk::<f64>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17565() { let mut x = mk::<f64>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17566() { let _ = mk::<f64>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17567() { let _ = mk::<f64>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17568() { let _ = &mk::<f64>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17569() { let _ = &mk::<f64>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p17570() { let mut x = mk::<f64>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17571() { let mut x = mk::<f64>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p17572() { let _ = mk::<f64>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p17573() { let _ = mk::<f64>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p17574() { let _: Scale3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17575() { let _: Scale3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17576() { let _ = mk::<f64>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17577() { let _ = mk::<f64>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17578() { let _ = &mk::<f64>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17579() { let _ = &mk::<f64>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17580() { let mut x = mk::<f64>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17581() { let mut x = mk::<f64>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17582() { let _ = mk::<f64>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17583() { let _ = mk::<f64>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17584() { let _ = &mk::<f64>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17585() { let _ = &mk::<f64>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17586() { let mut x = mk::<f64>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17587() { let mut x = mk::<f64>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17588() { let _ = mk::<f64>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17589() { let _ = mk::<f64>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17590() { let _ = &mk::<f64>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17591() { let _ = &mk::<f64>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17592() { let mut x = mk::<f64>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17593() { let mut x = mk::<f64>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17594() { let _ = mk::<f64>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17595() { let _ = mk::<f64>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17596() { let _ = &mk::<f64>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17597() { let _ = &mk::<f64>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17598() { let mut x = mk::<f64>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17599() { let mut x = mk::<f64>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17600() { let _ = mk::<f64>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17601() { let _ = mk::<f64>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17602() { let _ = &mk::<f64>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17603() { let _ = &mk::<f64>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p17604() { let mut x = mk::<f64>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17605() { let mut x = mk::<f64>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p17606() { let _ = mk::<f64>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p17607() { let _ = mk::<f64>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p17608() { let _: Shear3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17609() { let _: Shear3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17610() { let _ = mk::<f64>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17611() { let _ = mk::<f64>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17612() { let _ = &mk::<f64>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17613() { let _ = &mk::<f64>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17614() { let mut x = mk::<f64>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17615() { let mut x = mk::<f64>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17616() { let _ = mk::<f64>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17617() { let _ = mk::<f64>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17618() { let _ = &mk::<f64>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17619() { let _ = &mk::<f64>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17620() { let mut x = mk::<f64>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17621() { let mut x = mk::<f64>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17622() { let _ = mk::<f64>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17623() { let _ = mk::<f64>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17624() { let _ = &mk::<f64>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17625() { let _ = &mk::<f64>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17626() { let mut x = mk::<f64>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17627() { let mut x = mk::<f64>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17628() { let _ = mk::<f64>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17629() { let _ = mk::<f64>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17630() { let _ = &mk::<f64>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17631() { let _ = &mk::<f64>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17632() { let mut x = mk::<f64>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17633() { let mut x = mk::<f64>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17634() { let _ = mk::<f64>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17635() { let _ = mk::<f64>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17636() { let _ = &mk::<f64>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17637() { let _ = &mk::<f64>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p17638() { let mut x = mk::<f64>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17639() { let mut x = mk::<f64>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p17640() { let _ = mk::<f64>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p17641() { let _ = mk::<f64>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p17642() { let _: Reflection3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17643() { let _: Reflection3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17644() { let _ = mk::<f64>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17645() { let _ = mk::<f64>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17646() { let _ = &mk::<f64>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17647() { let _ = &mk::<f64>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17648() { let mut x = mk::<f64>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17649() { let mut x = mk::<f64>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17650() { let _ = mk::<f64>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17651() { let _ = mk::<f64>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17652() { let _ = &mk::<f64>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17653() { let _ = &mk::<f64>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17654() { let mut x = mk::<f64>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17655() { let mut x = mk::<f64>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17656() { let _ = mk::<f64>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17657() { let _ = mk::<f64>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17658() { let _ = &mk::<f64>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17659() { let _ = &mk::<f64>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17660() { let mut x = mk::<f64>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17661() { let mut x = mk::<f64>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17662() { let _ = mk::<f64>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17663() { let _ = mk::<f64>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17664() { let _ = &mk::<f64>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17665() { let _ = &mk::<f64>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17666() { let mut x = mk::<f64>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17667() { let mut x = mk::<f64>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17668() { let _ = mk::<f64>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17669() { let _ = mk::<f64>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17670() { let _ = &mk::<f64>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17671() { let _ = &mk::<f64>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p17672() { let mut x = mk::<f64>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17673() { let mut x = mk::<f64>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p17674() { let _ = mk::<f64>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p17675() { let _ = mk::<f64>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p17676() { let _: Isometry3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17677() { let _: Isometry3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17678() { let _ = mk::<f64>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17679() { let _ = mk::<f64>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17680() { let _ = &mk::<f64>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17681() { let _ = &mk::<f64>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17682() { let mut x = mk::<f64>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17683() { let mut x = mk::<f64>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17684() { let _ = mk::<f64>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17685() { let _ = mk::<f64>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17686() { let _ = &mk::<f64>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17687() { let _ = &mk::<f64>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17688() { let mut x = mk::<f64>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17689() { let mut x = mk::<f64>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17690() { let _ = mk::<f64>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17691() { let _ = mk::<f64>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17692() { let _ = &mk::<f64>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17693() { let _ = &mk::<f64>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17694() { let mut x = mk::<f64>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17695() { let mut x = mk::<f64>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17696() { let _ = mk::<f64>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17697() { let _ = mk::<f64>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17698() { let _ = &mk::<f64>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17699() { let _ = &mk::<f64>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17700() { let mut x = mk::<f64>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17701() { let mut x = mk::<f64>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17702() { let _ = mk::<f64>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17703() { let _ = mk::<f64>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17704() { let _ = &mk::<f64>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17705() { let _ = &mk::<f64>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p17706() { let mut x = mk::<f64>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17707() { let mut x = mk::<f64>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p17708() { let _ = mk::<f64>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p17709() { let _ = mk::<f64>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p17710() { let _: Similarity3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17711() { let _: Similarity3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17712() { let _ = mk::<f64>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17713() { let _ = mk::<f64>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17714() { let _ = &mk::<f64>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17715() { let _ = &mk::<f64>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17716() { let mut x = mk::<f64>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17717() { let mut x = mk::<f64>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17718() { let _ = mk::<f64>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17719() { let _ = mk::<f64>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17720() { let _ = &mk::<f64>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17721() { let _ = &mk::<f64>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17722() { let mut x = mk::<f64>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17723() { let mut x = mk::<f64>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17724() { let _ = mk::<f64>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17725() { let _ = mk::<f64>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17726() { let _ = &mk::<f64>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17727() { let _ = &mk::<f64>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17728() { let mut x = mk::<f64>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17729() { let mut x = mk::<f64>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17730() { let _ = mk::<f64>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17731() { let _ = mk::<f64>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17732() { let _ = &mk::<f64>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17733() { let _ = &mk::<f64>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17734() { let mut x = mk::<f64>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17735() { let mut x = mk::<f64>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17736() { let _ = mk::<f64>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17737() { let _ = mk::<f64>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17738() { let _ = &mk::<f64>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17739() { let _ = &mk::<f64>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p17740() { let mut x = mk::<f64>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17741() { let mut x = mk::<f64>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p17742() { let _ = mk::<f64>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p17743() { let _ = mk::<f64>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p17744() { let _: Transform3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17745() { let _: Transform3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17746() { let _ = mk::<f64>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17747() { let _ = mk::<f64>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17748() { let _ = &mk::<f64>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17749() { let _ = &mk::<f64>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17750() { let mut x = mk::<f64>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17751() { let mut x = mk::<f64>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17752() { let _ = mk::<f64>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17753() { let _ = mk::<f64>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17754() { let _ = &mk::<f64>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17755() { let _ = &mk::<f64>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17756() { let mut x = mk::<f64>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17757() { let mut x = mk::<f64>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17758() { let _ = mk::<f64>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17759() { let _ = mk::<f64>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17760() { let _ = &mk::<f64>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17761() { let _ = &mk::<f64>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17762() { let mut x = mk::<f64>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17763() { let mut x = mk::<f64>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17764() { let _ = mk::<f64>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17765() { let _ = mk::<f64>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17766() { let _ = &mk::<f64>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17767() { let _ = &mk::<f64>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17768() { let mut x = mk::<f64>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17769() { let mut x = mk::<f64>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17770() { let _ = mk::<f64>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17771() { let _ = mk::<f64>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17772() { let _ = &mk::<f64>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17773() { let _ = &mk::<f64>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p17774() { let mut x = mk::<f64>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17775() { let mut x = mk::<f64>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p17776() { let _ = mk::<f64>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p17777() { let _ = mk::<f64>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p17778() { let _: Perspective3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17779() { let _: Perspective3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17780() { let _ = mk::<f64>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17781() { let _ = mk::<f64>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17782() { let _ = &mk::<f64>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17783() { let _ = &mk::<f64>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17784() { let mut x = mk::<f64>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17785() { let mut x = mk::<f64>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17786() { let _ = mk::<f64>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17787() { let _ = mk::<f64>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17788() { let _ = &mk::<f64>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17789() { let _ = &mk::<f64>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17790() { let mut x = mk::<f64>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17791() { let mut x = mk::<f64>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17792() { let _ = mk::<f64>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17793() { let _ = mk::<f64>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17794() { let _ = &mk::<f64>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17795() { let _ = &mk::<f64>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17796() { let mut x = mk::<f64>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17797() { let mut x = mk::<f64>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17798() { let _ = mk::<f64>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17799() { let _ = mk::<f64>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17800() { let _ = &mk::<f64>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17801() { let _ = &mk::<f64>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17802() { let mut x = mk::<f64>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17803() { let mut x = mk::<f64>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17804() { let _ = mk::<f64>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17805() { let _ = mk::<f64>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17806() { let _ = &mk::<f64>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17807() { let _ = &mk::<f64>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p17808() { let mut x = mk::<f64>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17809() { let mut x = mk::<f64>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p17810() { let _ = mk::<f64>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p17811() { let _ = mk::<f64>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p17812() { let _: Orthographic3<f64> = mk::<f64>(); } // reject no-implicit-conversion
fn p17813() { let _: Orthographic3<f32> = mk::<f64>(); } // reject no-implicit-conversion
fn p17814() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17815() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17816() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17817() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17818() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17819() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17820() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17821() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17822() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17823() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17824() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17825() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17826() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17827() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17828() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17829() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17830() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17831() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17832() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17833() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17834() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17835() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17836() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17837() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17838() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17839() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17840() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17841() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p17842() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17843() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p17844() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p17845() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p17846() { let _: Vector3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17847() { let _: Vector3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17848() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17849() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17850() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17851() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17852() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17853() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17854() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17855() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17856() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17857() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17858() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17859() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17860() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17861() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17862() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17863() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17864() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17865() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17866() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17867() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17868() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17869() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17870() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17871() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17872() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17873() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17874() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17875() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p17876() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17877() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p17878() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p17879() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p17880() { let _: Vector4<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17881() { let _: Vector4<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17882() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p17883() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17884() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p17885() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17886() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17887() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17888() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p17889() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17890() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p17891() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17892() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17893() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17894() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p17895() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17896() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p17897() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17898() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17899() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17900() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p17901() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17902() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p17903() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17904() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17905() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17906() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p17907() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17908() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p17909() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p17910() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17911() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p17912() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p17913() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p17914() { let _: Point3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17915() { let _: Point3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17916() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17917() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17918() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17919() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17920() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17921() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17922() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17923() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17924() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17925() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17926() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17927() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17928() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17929() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17930() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17931() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17932() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17933() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17934() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17935() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17936() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17937() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17938() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17939() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17940() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17941() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17942() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17943() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p17944() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17945() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p17946() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p17947() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p17948() { let _: Matrix3x3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17949() { let _: Matrix3x3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17950() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17951() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17952() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17953() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17954() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17955() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17956() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17957() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17958() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17959() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17960() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17961() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17962() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17963() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17964() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17965() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17966() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17967() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17968() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17969() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17970() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17971() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17972() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17973() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17974() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17975() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17976() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17977() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p17978() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17979() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p17980() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p17981() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p17982() { let _: Matrix4x4<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17983() { let _: Matrix4x4<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p17984() { let _ = mk::<Euler<Radians<f64>>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17985() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17986() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17987() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17988() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17989() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17990() { let _ = mk::<Euler<Radians<f64>>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17991() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17992() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17993() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17994() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17995() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p17996() { let _ = mk::<Euler<Radians<f64>>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17997() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17998() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p17999() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18000() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18001() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18002() { let _ = mk::<Euler<Radians<f64>>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18003() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18004() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18005() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18006() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18007() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18008() { let _ = mk::<Euler<Radians<f64>>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18009() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18010() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18011() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18012() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18013() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18014() { let _ = mk::<Euler<Radians<f64>>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p18015() { let _ = mk::<Euler<Radians<f64>>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p18016() { let _: RowVector3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18017() { let _: RowVector3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18018() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18019() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18020() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18021() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18022() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18023() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18024() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18025() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18026() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18027() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18028() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18029() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18030() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18031() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18032() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18033() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18034() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18035() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18036() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18037() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18038() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18039() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18040() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18041() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18042() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18043() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18044() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18045() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18046() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18047() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18048() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p18049() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p18050() { let _: Quaternion<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18051() { let _: Quaternion<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18052() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p18053() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18054() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p18055() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18056() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18057() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18058() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p18059() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18060() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p18061() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18062() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18063() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18064() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p18065() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18066() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p18067() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18068() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18069() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18070() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p18071() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18072() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p18073() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18074() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18075() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18076() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p18077() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18078() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p18079() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18080() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18081() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18082() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p18083() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p18084() { let _: Complex<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18085() { let _: Complex<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18086() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p18087() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18088() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p18089() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18090() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18091() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18092() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p18093() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18094() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p18095() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18096() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18097() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18098() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p18099() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18100() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p18101() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18102() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18103() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18104() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p18105() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18106() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p18107() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18108() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18109() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18110() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p18111() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18112() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p18113() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18114() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18115() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18116() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p18117() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p18118() { let _: Radians<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18119() { let _: Radians<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18120() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18121() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18122() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18123() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18124() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18125() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18126() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18127() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18128() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18129() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18130() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18131() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18132() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18133() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18134() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18135() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18136() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18137() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18138() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18139() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18140() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18141() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18142() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18143() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18144() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18145() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18146() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18147() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18148() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18149() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18150() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p18151() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p18152() { let _: Degrees<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18153() { let _: Degrees<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18154() { let _ = mk::<Euler<Radians<f64>>>() + mk::<f64>(); } // reject operator-kinds
fn p18155() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<f64>(); } // reject operator-kinds
fn p18156() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<f64>(); } // reject operator-kinds
fn p18157() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<f64>(); } // reject operator-kinds
fn p18158() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p18159() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p18160() { let _ = mk::<Euler<Radians<f64>>>() - mk::<f64>(); } // reject operator-kinds
fn p18161() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<f64>(); } // reject operator-kinds
fn p18162() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<f64>(); } // reject operator-kinds
fn p18163() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<f64>(); } // reject operator-kinds
fn p18164() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p18165() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p18166() { let _ = mk::<Euler<Radians<f64>>>() == mk::<f64>(); } // reject equality-kinds
fn p18167() { let _ = mk::<Euler<Radians<f64>>>() < mk::<f64>(); } // reject equality-kinds
fn p18168() { let _: f64 = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18169() { let _: f32 = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18170() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18171() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18172() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18173() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18174() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18175() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18176() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18177() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18178() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18179() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18180() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18181() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18182() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18183() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18184() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18185() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18186() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18187() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18188() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Euler<Radians<f64>>>(); } // accept equality-kinds
fn p18189() { let _: Euler<Radians<f64>> = mk::<Euler<Radians<f64>>>(); } // accept no-implicit-conversion
fn p18190() { let _: Euler<Radians<f32>> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18191() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18192() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18193() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18194() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18195() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18196() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18197() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18198() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18199() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18200() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18201() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18202() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18203() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18204() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18205() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18206() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18207() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18208() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18209() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18210() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18211() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18212() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18213() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18214() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18215() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18216() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18217() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18218() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p18219() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18220() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p18221() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p18222() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p18223() { let _: Unit<Vector3<f64>> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18224() { let _: Unit<Vector3<f32>> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18225() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18226() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18227() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18228() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18229() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18230() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18231() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18232() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18233() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18234() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18235() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18236() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18237() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18238() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18239() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18240() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18241() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18242() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18243() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18244() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18245() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18246() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18247() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18248() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18249() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18250() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18251() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18252() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18253() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18254() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18255() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p18256() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p18257() { let _: Unit<Quaternion<f64>> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18258() { let _: Unit<Quaternion<f32>> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18259() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18260() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18261() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18262() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18263() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18264() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18265() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18266() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18267() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18268() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18269() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18270() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18271() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18272() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18273() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18274() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18275() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18276() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18277() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18278() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18279() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18280() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18281() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18282() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18283() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18284() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18285() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18286() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18287() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18288() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18289() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p18290() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p18291() { let _: Rotation3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18292() { let _: Rotation3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18293() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18294() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18295() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18296() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18297() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18298() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18299() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18300() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18301() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18302() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18303() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18304() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18305() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18306() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18307() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18308() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18309() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18310() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18311() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18312() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18313() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18314() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18315() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18316() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18317() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18318() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18319() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18320() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p18321() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18322() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p18323() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p18324() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p18325() { let _: Translation3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18326() { let _: Translation3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18327() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18328() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18329() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18330() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18331() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18332() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18333() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18334() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18335() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18336() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18337() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18338() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18339() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18340() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18341() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18342() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18343() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18344() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18345() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18346() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18347() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18348() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18349() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18350() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18351() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18352() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18353() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18354() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p18355() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18356() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p18357() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p18358() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p18359() { let _: Scale3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18360() { let _: Scale3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18361() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18362() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18363() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18364() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18365() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18366() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18367() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18368() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18369() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18370() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18371() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18372() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18373() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18374() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18375() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18376() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18377() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18378() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18379() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18380() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18381() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18382() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18383() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18384() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18385() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18386() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18387() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18388() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p18389() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18390() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p18391() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p18392() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p18393() { let _: Shear3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18394() { let _: Shear3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18395() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18396() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18397() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18398() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18399() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18400() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18401() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18402() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18403() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18404() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18405() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18406() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18407() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18408() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18409() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18410() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18411() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18412() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18413() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18414() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18415() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18416() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18417() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18418() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18419() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18420() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18421() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18422() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p18423() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18424() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p18425() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p18426() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p18427() { let _: Reflection3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18428() { let _: Reflection3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18429() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18430() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18431() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18432() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18433() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18434() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18435() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18436() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18437() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18438() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18439() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18440() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18441() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18442() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18443() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18444() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18445() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18446() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18447() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18448() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18449() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18450() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18451() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18452() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18453() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18454() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18455() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18456() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p18457() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18458() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p18459() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p18460() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p18461() { let _: Isometry3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18462() { let _: Isometry3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18463() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18464() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18465() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18466() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18467() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18468() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18469() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18470() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18471() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18472() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18473() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18474() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18475() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18476() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18477() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18478() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18479() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18480() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18481() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18482() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18483() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18484() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18485() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18486() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18487() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18488() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18489() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18490() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p18491() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18492() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p18493() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p18494() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p18495() { let _: Similarity3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18496() { let _: Similarity3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18497() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18498() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18499() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18500() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18501() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18502() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18503() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18504() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18505() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18506() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18507() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18508() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18509() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18510() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18511() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18512() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18513() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18514() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18515() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18516() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18517() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18518() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18519() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18520() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18521() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18522() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18523() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18524() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p18525() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18526() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p18527() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p18528() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p18529() { let _: Transform3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18530() { let _: Transform3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18531() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18532() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18533() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18534() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18535() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18536() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18537() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18538() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18539() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18540() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18541() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18542() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18543() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18544() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18545() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18546() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18547() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18548() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18549() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18550() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18551() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18552() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18553() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18554() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18555() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18556() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18557() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18558() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p18559() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18560() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p18561() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p18562() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p18563() { let _: Perspective3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18564() { let _: Perspective3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18565() { let _ = mk::<Euler<Radians<f64>>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18566() { let _ = mk::<Euler<Radians<f64>>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18567() { let _ = &mk::<Euler<Radians<f64>>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18568() { let _ = &mk::<Euler<Radians<f64>>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18569() { let mut x = mk::<Euler<Radians<f64>>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18570() { let mut x = mk::<Euler<Radians<f64>>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18571() { let _ = mk::<Euler<Radians<f64>>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18572() { let _ = mk::<Euler<Radians<f64>>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18573() { let _ = &mk::<Euler<Radians<f64>>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18574() { let _ = &mk::<Euler<Radians<f64>>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18575() { let mut x = mk::<Euler<Radians<f64>>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18576() { let mut x = mk::<Euler<Radians<f64>>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18577() { let _ = mk::<Euler<Radians<f64>>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18578() { let _ = mk::<Euler<Radians<f64>>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18579() { let _ = &mk::<Euler<Radians<f64>>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18580() { let _ = &mk::<Euler<Radians<f64>>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18581() { let mut x = mk::<Euler<Radians<f64>>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18582() { let mut x = mk::<Euler<Radians<f64>>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18583() { let _ = mk::<Euler<Radians<f64>>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18584() { let _ = mk::<Euler<Radians<f64>>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18585() { let _ = &mk::<Euler<Radians<f64>>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18586() { let _ = &mk::<Euler<Radians<f64>>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18587() { let mut x = mk::<Euler<Radians<f64>>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18588() { let mut x = mk::<Euler<Radians<f64>>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18589() { let _ = mk::<Euler<Radians<f64>>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18590() { let _ = mk::<Euler<Radians<f64>>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18591() { let _ = &mk::<Euler<Radians<f64>>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18592() { let _ = &mk::<Euler<Radians<f64>>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p18593() { let mut x = mk::<Euler<Radians<f64>>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18594() { let mut x = mk::<Euler<Radians<f64>>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p18595() { let _ = mk::<Euler<Radians<f64>>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p18596() { let _ = mk::<Euler<Radians<f64>>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p18597() { let _: Orthographic3<f64> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18598() { let _: Orthographic3<f32> = mk::<Euler<Radians<f64>>>(); } // reject no-implicit-conversion
fn p18599() { let _ = !mk::<Euler<Radians<f64>>>(); } // reject negation
fn p18600() { let _ = !&mk::<Euler<Radians<f64>>>(); } // reject negation
fn p18601() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p18602() { let _: Vector3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18603() { let _: Vector3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18604() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18605() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18606() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18607() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18608() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18609() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18610() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18611() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18612() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18613() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18614() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18615() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18616() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18617() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18618() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18619() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18620() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18621() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18622() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18623() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18624() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18625() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18626() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18627() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18628() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18629() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18630() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18631() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p18632() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18633() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p18634() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p18635() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p18636() { let _: Vector4<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18637() { let _: Vector4<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18638() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p18639() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18640() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p18641() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18642() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18643() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18644() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p18645() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18646() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p18647() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18648() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18649() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18650() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p18651() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18652() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p18653() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18654() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18655() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18656() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p18657() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18658() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p18659() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18660() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18661() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18662() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p18663() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18664() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p18665() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p18666() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18667() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p18668() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p18669() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p18670() { let _: Point3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18671() { let _: Point3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18672() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18673() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18674() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18675() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18676() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18677() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18678() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18679() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18680() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18681() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18682() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18683() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18684() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18685() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18686() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18687() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18688() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18689() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18690() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18691() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18692() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18693() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18694() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18695() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18696() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18697() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18698() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18699() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p18700() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18701() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p18702() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p18703() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p18704() { let _: Matrix3x3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18705() { let _: Matrix3x3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18706() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18707() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18708() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18709() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18710() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18711() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18712() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18713() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18714() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18715() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18716() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18717() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18718() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18719() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18720() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18721() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18722() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18723() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18724() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18725() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18726() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18727() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18728() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18729() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18730() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18731() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18732() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18733() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p18734() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18735() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p18736() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p18737() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p18738() { let _: Matrix4x4<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18739() { let _: Matrix4x4<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18740() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18741() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18742() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18743() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18744() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18745() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18746() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18747() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18748() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18749() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18750() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18751() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18752() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18753() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18754() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18755() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18756() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18757() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18758() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18759() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18760() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18761() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18762() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18763() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18764() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18765() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18766() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18767() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p18768() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18769() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p18770() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p18771() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p18772() { let _: RowVector3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18773() { let _: RowVector3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18774() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18775() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18776() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18777() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18778() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18779() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18780() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18781() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18782() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18783() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18784() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18785() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18786() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18787() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18788() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18789() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18790() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18791() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18792() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18793() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18794() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18795() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18796() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18797() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18798() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18799() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18800() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18801() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p18802() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18803() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p18804() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p18805() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p18806() { let _: Quaternion<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18807() { let _: Quaternion<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18808() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p18809() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18810() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p18811() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18812() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18813() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18814() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p18815() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18816() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p18817() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18818() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18819() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18820() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p18821() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18822() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p18823() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18824() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18825() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18826() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p18827() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18828() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p18829() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18830() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18831() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18832() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p18833() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18834() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p18835() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p18836() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18837() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p18838() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p18839() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p18840() { let _: Complex<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18841() { let _: Complex<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18842() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p18843() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18844() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p18845() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18846() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18847() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18848() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p18849() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18850() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p18851() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18852() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18853() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18854() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p18855() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18856() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p18857() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18858() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18859() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18860() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p18861() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18862() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p18863() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18864() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18865() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18866() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p18867() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18868() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p18869() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p18870() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18871() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p18872() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p18873() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p18874() { let _: Radians<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18875() { let _: Radians<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18876() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18877() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18878() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18879() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18880() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18881() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18882() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18883() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18884() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18885() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18886() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18887() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18888() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18889() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18890() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18891() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18892() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18893() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18894() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18895() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18896() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18897() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18898() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18899() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18900() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18901() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18902() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18903() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p18904() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18905() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p18906() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p18907() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p18908() { let _: Degrees<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18909() { let _: Degrees<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18910() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<f64>(); } // reject equality-kinds
fn p18911() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<f64>(); } // reject equality-kinds
fn p18912() { let _: f64 = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18913() { let _: f32 = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18914() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18915() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18916() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18917() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18918() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18919() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18920() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18921() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18922() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18923() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18924() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18925() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18926() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18927() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18928() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18929() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18930() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18931() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18932() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18933() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18934() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18935() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18936() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18937() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18938() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18939() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18940() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18941() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p18942() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18943() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p18944() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p18945() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p18946() { let _: Euler<Radians<f64>> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18947() { let _: Euler<Radians<f32>> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18948() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Unit<Vector3<f64>>>(); } // accept equality-kinds
fn p18949() { let _: Unit<Vector3<f64>> = mk::<Unit<Vector3<f64>>>(); } // accept no-implicit-conversion
fn p18950() { let _: Unit<Vector3<f32>> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18951() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18952() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18953() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18954() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18955() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18956() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18957() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18958() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18959() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18960() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18961() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18962() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18963() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18964() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18965() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18966() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18967() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18968() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18969() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18970() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18971() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18972() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18973() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18974() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18975() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18976() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18977() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18978() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p18979() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18980() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p18981() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p18982() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p18983() { let _: Unit<Quaternion<f64>> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18984() { let _: Unit<Quaternion<f32>> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p18985() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18986() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18987() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18988() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18989() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18990() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18991() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18992() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18993() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18994() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18995() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18996() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p18997() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18998() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p18999() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19000() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19001() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19002() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19003() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19004() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19005() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19006() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19007() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19008() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19009() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19010() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19011() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19012() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19013() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19014() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19015() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p19016() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p19017() { let _: Rotation3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19018() { let _: Rotation3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19019() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19020() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19021() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19022() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19023() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19024() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19025() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19026() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19027() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19028() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19029() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19030() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19031() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19032() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19033() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19034() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19035() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19036() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19037() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19038() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19039() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19040() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19041() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19042() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19043() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19044() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19045() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19046() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19047() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19048() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19049() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p19050() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p19051() { let _: Translation3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19052() { let _: Translation3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19053() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19054() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19055() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19056() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19057() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19058() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19059() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19060() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19061() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19062() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19063() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19064() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19065() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19066() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19067() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19068() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19069() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19070() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19071() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19072() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19073() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19074() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19075() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19076() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19077() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19078() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19079() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19080() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19081() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19082() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19083() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p19084() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p19085() { let _: Scale3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19086() { let _: Scale3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19087() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19088() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19089() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19090() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19091() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19092() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19093() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19094() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19095() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19096() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19097() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19098() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19099() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19100() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19101() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19102() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19103() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19104() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19105() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19106() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19107() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19108() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19109() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19110() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19111() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19112() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19113() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19114() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19115() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19116() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19117() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p19118() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p19119() { let _: Shear3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19120() { let _: Shear3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19121() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19122() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19123() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19124() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19125() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19126() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19127() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19128() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19129() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19130() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19131() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19132() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19133() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19134() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19135() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19136() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19137() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19138() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19139() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19140() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19141() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19142() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19143() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19144() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19145() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19146() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19147() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19148() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19149() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19150() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19151() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p19152() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p19153() { let _: Reflection3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19154() { let _: Reflection3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19155() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19156() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19157() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19158() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19159() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19160() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19161() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19162() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19163() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19164() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19165() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19166() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19167() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19168() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19169() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19170() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19171() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19172() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19173() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19174() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19175() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19176() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19177() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19178() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19179() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19180() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19181() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19182() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19183() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19184() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19185() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p19186() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p19187() { let _: Isometry3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19188() { let _: Isometry3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19189() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19190() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19191() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19192() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19193() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19194() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19195() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19196() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19197() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19198() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19199() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19200() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19201() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19202() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19203() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19204() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19205() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19206() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19207() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19208() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19209() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19210() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19211() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19212() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19213() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19214() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19215() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19216() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19217() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19218() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19219() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p19220() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p19221() { let _: Similarity3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19222() { let _: Similarity3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19223() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19224() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19225() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19226() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19227() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19228() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19229() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19230() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19231() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19232() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19233() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19234() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19235() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19236() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19237() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19238() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19239() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19240() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19241() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19242() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19243() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19244() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19245() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19246() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19247() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19248() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19249() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19250() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19251() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19252() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19253() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p19254() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p19255() { let _: Transform3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19256() { let _: Transform3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19257() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19258() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19259() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19260() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19261() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19262() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19263() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19264() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19265() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19266() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19267() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19268() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19269() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19270() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19271() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19272() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19273() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19274() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19275() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19276() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19277() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19278() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19279() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19280() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19281() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19282() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19283() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19284() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19285() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19286() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19287() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p19288() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p19289() { let _: Perspective3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19290() { let _: Perspective3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19291() { let _ = mk::<Unit<Vector3<f64>>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19292() { let _ = mk::<Unit<Vector3<f64>>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19293() { let _ = &mk::<Unit<Vector3<f64>>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19294() { let _ = &mk::<Unit<Vector3<f64>>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19295() { let mut x = mk::<Unit<Vector3<f64>>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19296() { let mut x = mk::<Unit<Vector3<f64>>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19297() { let _ = mk::<Unit<Vector3<f64>>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19298() { let _ = mk::<Unit<Vector3<f64>>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19299() { let _ = &mk::<Unit<Vector3<f64>>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19300() { let _ = &mk::<Unit<Vector3<f64>>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19301() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19302() { let mut x = mk::<Unit<Vector3<f64>>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19303() { let _ = mk::<Unit<Vector3<f64>>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19304() { let _ = mk::<Unit<Vector3<f64>>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19305() { let _ = &mk::<Unit<Vector3<f64>>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19306() { let _ = &mk::<Unit<Vector3<f64>>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19307() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19308() { let mut x = mk::<Unit<Vector3<f64>>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19309() { let _ = mk::<Unit<Vector3<f64>>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19310() { let _ = mk::<Unit<Vector3<f64>>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19311() { let _ = &mk::<Unit<Vector3<f64>>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19312() { let _ = &mk::<Unit<Vector3<f64>>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19313() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19314() { let mut x = mk::<Unit<Vector3<f64>>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19315() { let _ = mk::<Unit<Vector3<f64>>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19316() { let _ = mk::<Unit<Vector3<f64>>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19317() { let _ = &mk::<Unit<Vector3<f64>>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19318() { let _ = &mk::<Unit<Vector3<f64>>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p19319() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19320() { let mut x = mk::<Unit<Vector3<f64>>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p19321() { let _ = mk::<Unit<Vector3<f64>>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p19322() { let _ = mk::<Unit<Vector3<f64>>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p19323() { let _: Orthographic3<f64> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19324() { let _: Orthographic3<f32> = mk::<Unit<Vector3<f64>>>(); } // reject no-implicit-conversion
fn p19325() { let _: Unit<Vector3<f64>> = -mk::<Unit<Vector3<f64>>>(); } // accept negation
fn p19326() { let _: Unit<Vector3<f64>> = -&mk::<Unit<Vector3<f64>>>(); } // accept negation
fn p19327() { let _ = !mk::<Unit<Vector3<f64>>>(); } // reject negation
fn p19328() { let _ = !&mk::<Unit<Vector3<f64>>>(); } // reject negation
fn p19329() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19330() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19331() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19332() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19333() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19334() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19335() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19336() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19337() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19338() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19339() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19340() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19341() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19342() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19343() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19344() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19345() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19346() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19347() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19348() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19349() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19350() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p19351() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19352() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p19353() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p19354() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p19355() { let _: Vector3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19356() { let _: Vector3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19357() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19358() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19359() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19360() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19361() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19362() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19363() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19364() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19365() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19366() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19367() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19368() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19369() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19370() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19371() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19372() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19373() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19374() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19375() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19376() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19377() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19378() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19379() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19380() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19381() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19382() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19383() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19384() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p19385() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19386() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p19387() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p19388() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p19389() { let _: Vector4<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19390() { let _: Vector4<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19391() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p19392() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19393() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p19394() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19395() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19396() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19397() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p19398() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19399() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p19400() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19401() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19402() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19403() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p19404() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19405() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Point3<f64>>(); } // reject operator-kinds
fn p19406() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19407() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19408() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19409() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p19410() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19411() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p19412() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19413() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19414() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19415() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p19416() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19417() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p19418() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p19419() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19420() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p19421() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p19422() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p19423() { let _: Point3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19424() { let _: Point3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19425() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19426() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19427() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19428() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19429() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19430() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19431() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19432() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19433() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19434() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19435() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19436() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19437() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19438() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19439() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19440() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19441() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19442() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19443() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19444() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19445() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19446() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19447() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19448() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19449() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19450() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19451() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19452() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p19453() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19454() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p19455() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p19456() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p19457() { let _: Matrix3x3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19458() { let _: Matrix3x3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19459() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19460() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19461() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19462() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19463() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19464() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19465() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19466() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19467() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19468() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19469() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19470() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19471() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19472() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19473() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19474() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19475() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19476() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19477() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19478() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19479() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19480() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19481() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19482() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19483() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19484() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19485() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19486() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p19487() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19488() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p19489() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p19490() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p19491() { let _: Matrix4x4<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19492() { let _: Matrix4x4<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19493() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19494() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19495() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19496() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19497() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19498() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19499() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19500() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19501() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19502() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19503() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19504() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19505() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19506() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19507() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19508() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19509() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19510() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19511() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19512() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19513() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19514() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19515() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19516() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19517() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19518() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19519() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19520() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p19521() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19522() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p19523() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p19524() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p19525() { let _: RowVector3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19526() { let _: RowVector3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19527() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p19528() { let _: Quaternion<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19529() { let _: Quaternion<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19530() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p19531() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19532() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p19533() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19534() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19535() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19536() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p19537() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19538() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p19539() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19540() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19541() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19542() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p19543() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19544() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p19545() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19546() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19547() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19548() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p19549() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19550() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p19551() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19552() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19553() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19554() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p19555() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19556() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p19557() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p19558() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19559() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p19560() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p19561() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p19562() { let _: Complex<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19563() { let _: Complex<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19564() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p19565() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19566() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p19567() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19568() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19569() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19570() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p19571() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19572() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p19573() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19574() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19575() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19576() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p19577() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19578() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p19579() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19580() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19581() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19582() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p19583() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19584() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p19585() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19586() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19587() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19588() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p19589() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19590() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p19591() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p19592() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19593() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p19594() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p19595() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p19596() { let _: Radians<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19597() { let _: Radians<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19598() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19599() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19600() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19601() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19602() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19603() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19604() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19605() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19606() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19607() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19608() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19609() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19610() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19611() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19612() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19613() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19614() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19615() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19616() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19617() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19618() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19619() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19620() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19621() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19622() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19623() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19624() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19625() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p19626() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19627() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p19628() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p19629() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p19630() { let _: Degrees<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19631() { let _: Degrees<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19632() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<f64>(); } // reject equality-kinds
fn p19633() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<f64>(); } // reject equality-kinds
fn p19634() { let _: f64 = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19635() { let _: f32 = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19636() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19637() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19638() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19639() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19640() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19641() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19642() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19643() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19644() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19645() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19646() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19647() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19648() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19649() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19650() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19651() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19652() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19653() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19654() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19655() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19656() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19657() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19658() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19659() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19660() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19661() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19662() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19663() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p19664() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19665() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p19666() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p19667() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p19668() { let _: Euler<Radians<f64>> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19669() { let _: Euler<Radians<f32>> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19670() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19671() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19672() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19673() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19674() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19675() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19676() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19677() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19678() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19679() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19680() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19681() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19682() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19683() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19684() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19685() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19686() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19687() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19688() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19689() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19690() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19691() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19692() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19693() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19694() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19695() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19696() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19697() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p19698() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19699() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p19700() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p19701() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p19702() { let _: Unit<Vector3<f64>> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19703() { let _: Unit<Vector3<f32>> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19704() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Unit<Quaternion<f64>>>(); } // accept equality-kinds
fn p19705() { let _: Unit<Quaternion<f64>> = mk::<Unit<Quaternion<f64>>>(); } // accept no-implicit-conversion
fn p19706() { let _: Unit<Quaternion<f32>> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19707() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19708() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19709() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19710() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19711() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19712() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19713() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19714() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19715() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19716() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19717() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19718() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19719() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19720() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19721() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19722() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19723() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19724() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19725() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19726() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19727() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19728() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19729() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19730() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19731() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19732() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19733() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19734() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p19735() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19736() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p19737() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p19738() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p19739() { let _: Rotation3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19740() { let _: Rotation3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19741() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19742() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19743() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19744() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19745() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19746() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19747() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19748() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19749() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19750() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19751() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19752() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19753() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19754() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19755() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19756() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19757() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19758() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19759() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19760() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19761() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19762() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19763() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19764() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19765() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19766() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19767() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19768() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p19769() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19770() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p19771() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p19772() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p19773() { let _: Translation3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19774() { let _: Translation3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19775() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19776() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19777() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19778() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19779() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19780() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19781() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19782() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19783() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19784() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19785() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19786() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19787() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19788() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19789() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19790() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19791() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19792() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19793() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19794() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19795() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19796() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19797() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19798() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19799() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19800() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19801() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19802() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p19803() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19804() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p19805() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p19806() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p19807() { let _: Scale3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19808() { let _: Scale3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19809() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19810() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19811() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19812() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19813() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19814() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19815() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19816() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19817() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19818() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19819() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19820() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19821() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19822() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19823() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19824() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19825() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19826() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19827() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19828() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19829() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19830() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19831() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19832() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19833() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19834() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19835() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19836() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p19837() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19838() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p19839() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p19840() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p19841() { let _: Shear3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19842() { let _: Shear3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19843() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19844() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19845() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19846() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19847() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19848() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19849() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19850() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19851() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19852() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19853() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19854() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19855() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19856() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19857() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19858() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19859() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19860() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19861() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19862() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19863() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19864() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19865() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19866() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19867() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19868() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19869() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19870() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p19871() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19872() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p19873() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p19874() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p19875() { let _: Reflection3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19876() { let _: Reflection3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19877() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19878() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19879() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19880() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19881() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19882() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19883() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19884() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19885() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19886() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19887() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19888() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19889() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19890() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19891() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19892() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19893() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19894() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19895() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19896() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19897() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19898() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19899() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19900() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19901() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19902() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19903() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19904() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p19905() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19906() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p19907() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p19908() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p19909() { let _: Isometry3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19910() { let _: Isometry3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19911() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19912() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19913() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19914() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19915() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19916() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19917() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19918() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19919() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19920() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19921() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19922() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19923() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19924() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19925() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19926() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19927() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19928() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19929() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19930() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19931() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19932() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19933() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19934() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19935() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19936() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19937() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19938() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p19939() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19940() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p19941() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p19942() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p19943() { let _: Similarity3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19944() { let _: Similarity3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19945() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19946() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19947() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19948() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19949() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19950() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19951() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19952() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19953() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19954() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19955() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19956() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19957() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19958() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19959() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19960() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19961() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19962() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19963() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19964() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19965() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19966() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19967() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19968() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19969() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19970() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19971() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19972() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p19973() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19974() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p19975() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p19976() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p19977() { let _: Transform3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19978() { let _: Transform3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p19979() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19980() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19981() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19982() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19983() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19984() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19985() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19986() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19987() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19988() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19989() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19990() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19991() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19992() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19993() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19994() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19995() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19996() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p19997() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19998() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p19999() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20000() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20001() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20002() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20003() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20004() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20005() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20006() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20007() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20008() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20009() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p20010() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p20011() { let _: Perspective3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p20012() { let _: Perspective3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p20013() { let _ = mk::<Unit<Quaternion<f64>>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20014() { let _ = mk::<Unit<Quaternion<f64>>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20015() { let _ = &mk::<Unit<Quaternion<f64>>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20016() { let _ = &mk::<Unit<Quaternion<f64>>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20017() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20018() { let mut x = mk::<Unit<Quaternion<f64>>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20019() { let _ = mk::<Unit<Quaternion<f64>>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20020() { let _ = mk::<Unit<Quaternion<f64>>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20021() { let _ = &mk::<Unit<Quaternion<f64>>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20022() { let _ = &mk::<Unit<Quaternion<f64>>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20023() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20024() { let mut x = mk::<Unit<Quaternion<f64>>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20025() { let _ = mk::<Unit<Quaternion<f64>>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20026() { let _ = mk::<Unit<Quaternion<f64>>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20027() { let _ = &mk::<Unit<Quaternion<f64>>>() * mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20028() { let _ = &mk::<Unit<Quaternion<f64>>>() * &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20029() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20030() { let mut x = mk::<Unit<Quaternion<f64>>>(); x *= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20031() { let _ = mk::<Unit<Quaternion<f64>>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20032() { let _ = mk::<Unit<Quaternion<f64>>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20033() { let _ = &mk::<Unit<Quaternion<f64>>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20034() { let _ = &mk::<Unit<Quaternion<f64>>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20035() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20036() { let mut x = mk::<Unit<Quaternion<f64>>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20037() { let _ = mk::<Unit<Quaternion<f64>>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20038() { let _ = mk::<Unit<Quaternion<f64>>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20039() { let _ = &mk::<Unit<Quaternion<f64>>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20040() { let _ = &mk::<Unit<Quaternion<f64>>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20041() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20042() { let mut x = mk::<Unit<Quaternion<f64>>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20043() { let _ = mk::<Unit<Quaternion<f64>>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p20044() { let _ = mk::<Unit<Quaternion<f64>>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p20045() { let _: Orthographic3<f64> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p20046() { let _: Orthographic3<f32> = mk::<Unit<Quaternion<f64>>>(); } // reject no-implicit-conversion
fn p20047() { let _: Unit<Quaternion<f64>> = -mk::<Unit<Quaternion<f64>>>(); } // accept negation
fn p20048() { let _: Unit<Quaternion<f64>> = -&mk::<Unit<Quaternion<f64>>>(); } // accept negation
fn p20049() { let _ = !mk::<Unit<Quaternion<f64>>>(); } // reject negation
fn p20050() { let _ = !&mk::<Unit<Quaternion<f64>>>(); } // reject negation
fn p20051() { let _ = mk::<Rotation3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20052() { let _ = mk::<Rotation3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20053() { let _ = &mk::<Rotation3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20054() { let _ = &mk::<Rotation3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20055() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20056() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20057() { let _ = mk::<Rotation3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20058() { let _ = mk::<Rotation3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20059() { let _ = &mk::<Rotation3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20060() { let _ = &mk::<Rotation3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20061() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20062() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20063() { let _: Vector3<f64> = mk::<Rotation3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20064() { let _ = mk::<Rotation3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p20065() { let _ = mk::<Rotation3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p20066() { let _: Vector3<f64> = mk::<Rotation3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20067() { let _ = mk::<Rotation3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p20068() { let _ = mk::<Rotation3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p20069() { let _: Vector3<f64> = &mk::<Rotation3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20070() { let _ = &mk::<Rotation3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p20071() { let _ = &mk::<Rotation3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p20072() { let _: Vector3<f64> = &mk::<Rotation3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20073() { let _ = &mk::<Rotation3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p20074() { let _ = &mk::<Rotation3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p20075() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20076() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20077() { let _ = mk::<Rotation3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20078() { let _ = mk::<Rotation3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20079() { let _ = &mk::<Rotation3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20080() { let _ = &mk::<Rotation3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20081() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20082() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20083() { let _ = mk::<Rotation3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20084() { let _ = mk::<Rotation3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20085() { let _ = &mk::<Rotation3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20086() { let _ = &mk::<Rotation3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20087() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20088() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20089() { let _ = mk::<Rotation3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p20090() { let _ = mk::<Rotation3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p20091() { let _: Vector3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20092() { let _: Vector3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20093() { let _ = mk::<Rotation3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20094() { let _ = mk::<Rotation3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20095() { let _ = &mk::<Rotation3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20096() { let _ = &mk::<Rotation3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20097() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20098() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20099() { let _ = mk::<Rotation3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20100() { let _ = mk::<Rotation3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20101() { let _ = &mk::<Rotation3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20102() { let _ = &mk::<Rotation3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20103() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20104() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20105() { let _ = mk::<Rotation3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20106() { let _ = mk::<Rotation3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20107() { let _ = &mk::<Rotation3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20108() { let _ = &mk::<Rotation3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20109() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20110() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20111() { let _ = mk::<Rotation3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20112() { let _ = mk::<Rotation3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20113() { let _ = &mk::<Rotation3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20114() { let _ = &mk::<Rotation3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20115() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20116() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20117() { let _ = mk::<Rotation3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20118() { let _ = mk::<Rotation3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20119() { let _ = &mk::<Rotation3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20120() { let _ = &mk::<Rotation3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20121() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20122() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20123() { let _ = mk::<Rotation3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p20124() { let _ = mk::<Rotation3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p20125() { let _: Vector4<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20126() { let _: Vector4<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20127() { let _ = mk::<Rotation3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p20128() { let _ = mk::<Rotation3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20129() { let _ = &mk::<Rotation3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p20130() { let _ = &mk::<Rotation3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20131() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20132() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20133() { let _ = mk::<Rotation3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p20134() { let _ = mk::<Rotation3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20135() { let _ = &mk::<Rotation3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p20136() { let _ = &mk::<Rotation3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20137() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20138() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20139() { let _: Point3<f64> = mk::<Rotation3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p20140() { let _ = mk::<Rotation3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p20141() { let _ = mk::<Rotation3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p20142() { let _: Point3<f64> = mk::<Rotation3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p20143() { let _ = mk::<Rotation3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p20144() { let _ = mk::<Rotation3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p20145() { let _: Point3<f64> = &mk::<Rotation3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p20146() { let _ = &mk::<Rotation3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p20147() { let _ = &mk::<Rotation3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p20148() { let _: Point3<f64> = &mk::<Rotation3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p20149() { let _ = &mk::<Rotation3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p20150() { let _ = &mk::<Rotation3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p20151() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20152() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20153() { let _ = mk::<Rotation3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p20154() { let _ = mk::<Rotation3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20155() { let _ = &mk::<Rotation3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p20156() { let _ = &mk::<Rotation3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20157() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20158() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20159() { let _ = mk::<Rotation3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p20160() { let _ = mk::<Rotation3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20161() { let _ = &mk::<Rotation3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p20162() { let _ = &mk::<Rotation3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20163() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20164() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20165() { let _ = mk::<Rotation3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p20166() { let _ = mk::<Rotation3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p20167() { let _: Point3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20168() { let _: Point3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20169() { let _ = mk::<Rotation3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20170() { let _ = mk::<Rotation3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20171() { let _ = &mk::<Rotation3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20172() { let _ = &mk::<Rotation3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20173() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20174() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20175() { let _ = mk::<Rotation3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20176() { let _ = mk::<Rotation3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20177() { let _ = &mk::<Rotation3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20178() { let _ = &mk::<Rotation3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20179() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20180() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20181() { let _ = mk::<Rotation3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20182() { let _ = mk::<Rotation3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20183() { let _ = &mk::<Rotation3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20184() { let _ = &mk::<Rotation3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20185() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20186() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20187() { let _ = mk::<Rotation3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20188() { let _ = mk::<Rotation3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20189() { let _ = &mk::<Rotation3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20190() { let _ = &mk::<Rotation3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20191() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20192() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20193() { let _ = mk::<Rotation3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20194() { let _ = mk::<Rotation3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20195() { let _ = &mk::<Rotation3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20196() { let _ = &mk::<Rotation3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20197() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20198() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20199() { let _ = mk::<Rotation3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p20200() { let _ = mk::<Rotation3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p20201() { let _: Matrix3x3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20202() { let _: Matrix3x3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20203() { let _ = mk::<Rotation3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20204() { let _ = mk::<Rotation3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20205() { let _ = &mk::<Rotation3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20206() { let _ = &mk::<Rotation3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20207() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20208() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20209() { let _ = mk::<Rotation3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20210() { let _ = mk::<Rotation3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20211() { let _ = &mk::<Rotation3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20212() { let _ = &mk::<Rotation3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20213() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20214() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20215() { let _ = mk::<Rotation3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20216() { let _ = mk::<Rotation3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20217() { let _ = &mk::<Rotation3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20218() { let _ = &mk::<Rotation3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20219() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20220() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20221() { let _ = mk::<Rotation3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20222() { let _ = mk::<Rotation3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20223() { let _ = &mk::<Rotation3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20224() { let _ = &mk::<Rotation3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20225() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20226() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20227() { let _ = mk::<Rotation3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20228() { let _ = mk::<Rotation3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20229() { let _ = &mk::<Rotation3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20230() { let _ = &mk::<Rotation3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p20231() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20232() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p20233() { let _ = mk::<Rotation3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p20234() { let _ = mk::<Rotation3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p20235() { let _: Matrix4x4<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20236() { let _: Matrix4x4<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20237() { let _ = mk::<Rotation3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20238() { let _ = mk::<Rotation3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20239() { let _ = &mk::<Rotation3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20240() { let _ = &mk::<Rotation3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20241() { let mut x = mk::<Rotation3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20242() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20243() { let _ = mk::<Rotation3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20244() { let _ = mk::<Rotation3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20245() { let _ = &mk::<Rotation3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20246() { let _ = &mk::<Rotation3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20247() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20248() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20249() { let _ = mk::<Rotation3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20250() { let _ = mk::<Rotation3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20251() { let _ = &mk::<Rotation3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20252() { let _ = &mk::<Rotation3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20253() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20254() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20255() { let _ = mk::<Rotation3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20256() { let _ = mk::<Rotation3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20257() { let _ = &mk::<Rotation3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20258() { let _ = &mk::<Rotation3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20259() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20260() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20261() { let _ = mk::<Rotation3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20262() { let _ = mk::<Rotation3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20263() { let _ = &mk::<Rotation3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20264() { let _ = &mk::<Rotation3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p20265() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20266() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p20267() { let _ = mk::<Rotation3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p20268() { let _ = mk::<Rotation3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p20269() { let _: RowVector3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20270() { let _: RowVector3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20271() { let _ = mk::<Rotation3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20272() { let _ = mk::<Rotation3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20273() { let _ = &mk::<Rotation3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20274() { let _ = &mk::<Rotation3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20275() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20276() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20277() { let _ = mk::<Rotation3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20278() { let _ = mk::<Rotation3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20279() { let _ = &mk::<Rotation3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20280() { let _ = &mk::<Rotation3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20281() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20282() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20283() { let _ = mk::<Rotation3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20284() { let _ = mk::<Rotation3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20285() { let _ = &mk::<Rotation3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20286() { let _ = &mk::<Rotation3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20287() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20288() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20289() { let _ = mk::<Rotation3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20290() { let _ = mk::<Rotation3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20291() { let _ = &mk::<Rotation3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20292() { let _ = &mk::<Rotation3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20293() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20294() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20295() { let _ = mk::<Rotation3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20296() { let _ = mk::<Rotation3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20297() { let _ = &mk::<Rotation3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20298() { let _ = &mk::<Rotation3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p20299() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20300() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p20301() { let _ = mk::<Rotation3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p20302() { let _ = mk::<Rotation3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p20303() { let _: Quaternion<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20304() { let _: Quaternion<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20305() { let _ = mk::<Rotation3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p20306() { let _ = mk::<Rotation3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20307() { let _ = &mk::<Rotation3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p20308() { let _ = &mk::<Rotation3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20309() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20310() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20311() { let _ = mk::<Rotation3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p20312() { let _ = mk::<Rotation3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20313() { let _ = &mk::<Rotation3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p20314() { let _ = &mk::<Rotation3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20315() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20316() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20317() { let _ = mk::<Rotation3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p20318() { let _ = mk::<Rotation3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20319() { let _ = &mk::<Rotation3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p20320() { let _ = &mk::<Rotation3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20321() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20322() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20323() { let _ = mk::<Rotation3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p20324() { let _ = mk::<Rotation3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20325() { let _ = &mk::<Rotation3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p20326() { let _ = &mk::<Rotation3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20327() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20328() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20329() { let _ = mk::<Rotation3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p20330() { let _ = mk::<Rotation3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20331() { let _ = &mk::<Rotation3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p20332() { let _ = &mk::<Rotation3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p20333() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20334() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p20335() { let _ = mk::<Rotation3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p20336() { let _ = mk::<Rotation3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p20337() { let _: Complex<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20338() { let _: Complex<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20339() { let _ = mk::<Rotation3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p20340() { let _ = mk::<Rotation3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20341() { let _ = &mk::<Rotation3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p20342() { let _ = &mk::<Rotation3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20343() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20344() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20345() { let _ = mk::<Rotation3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p20346() { let _ = mk::<Rotation3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20347() { let _ = &mk::<Rotation3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p20348() { let _ = &mk::<Rotation3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20349() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20350() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20351() { let _ = mk::<Rotation3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p20352() { let _ = mk::<Rotation3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20353() { let _ = &mk::<Rotation3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p20354() { let _ = &mk::<Rotation3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20355() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20356() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20357() { let _ = mk::<Rotation3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p20358() { let _ = mk::<Rotation3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20359() { let _ = &mk::<Rotation3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p20360() { let _ = &mk::<Rotation3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20361() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20362() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20363() { let _ = mk::<Rotation3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p20364() { let _ = mk::<Rotation3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20365() { let _ = &mk::<Rotation3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p20366() { let _ = &mk::<Rotation3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p20367() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20368() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p20369() { let _ = mk::<Rotation3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p20370() { let _ = mk::<Rotation3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p20371() { let _: Radians<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20372() { let _: Radians<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20373() { let _ = mk::<Rotation3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20374() { let _ = mk::<Rotation3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20375() { let _ = &mk::<Rotation3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20376() { let _ = &mk::<Rotation3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20377() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20378() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20379() { let _ = mk::<Rotation3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20380() { let _ = mk::<Rotation3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20381() { let _ = &mk::<Rotation3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20382() { let _ = &mk::<Rotation3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20383() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20384() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20385() { let _ = mk::<Rotation3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20386() { let _ = mk::<Rotation3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20387() { let _ = &mk::<Rotation3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20388() { let _ = &mk::<Rotation3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20389() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20390() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20391() { let _ = mk::<Rotation3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20392() { let _ = mk::<Rotation3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20393() { let _ = &mk::<Rotation3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20394() { let _ = &mk::<Rotation3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20395() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20396() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20397() { let _ = mk::<Rotation3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20398() { let _ = mk::<Rotation3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20399() { let _ = &mk::<Rotation3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20400() { let _ = &mk::<Rotation3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p20401() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20402() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p20403() { let _ = mk::<Rotation3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p20404() { let _ = mk::<Rotation3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p20405() { let _: Degrees<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20406() { let _: Degrees<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20407() { let _ = mk::<Rotation3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p20408() { let _ = mk::<Rotation3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p20409() { let _ = &mk::<Rotation3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p20410() { let _ = &mk::<Rotation3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p20411() { let mut x = mk::<Rotation3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p20412() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p20413() { let _ = mk::<Rotation3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p20414() { let _ = mk::<Rotation3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p20415() { let _ = &mk::<Rotation3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p20416() { let _ = &mk::<Rotation3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p20417() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p20418() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p20419() { let _ = mk::<Rotation3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p20420() { let _ = mk::<Rotation3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p20421() { let _ = &mk::<Rotation3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p20422() { let _ = &mk::<Rotation3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p20423() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p20424() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p20425() { let _ = mk::<Rotation3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p20426() { let _ = mk::<Rotation3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p20427() { let _ = &mk::<Rotation3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p20428() { let _ = &mk::<Rotation3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p20429() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p20430() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p20431() { let _ = mk::<Rotation3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p20432() { let _ = mk::<Rotation3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p20433() { let _ = &mk::<Rotation3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p20434() { let _ = &mk::<Rotation3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p20435() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p20436() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p20437() { let _ = mk::<Rotation3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p20438() { let _ = mk::<Rotation3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p20439() { let _: f64 = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20440() { let _: f32 = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20441() { let _ = mk::<Rotation3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20442() { let _ = mk::<Rotation3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20443() { let _ = &mk::<Rotation3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20444() { let _ = &mk::<Rotation3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20445() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20446() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20447() { let _ = mk::<Rotation3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20448() { let _ = mk::<Rotation3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20449() { let _ = &mk::<Rotation3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20450() { let _ = &mk::<Rotation3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20451() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20452() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20453() { let _ = mk::<Rotation3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20454() { let _ = mk::<Rotation3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20455() { let _ = &mk::<Rotation3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20456() { let _ = &mk::<Rotation3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20457() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20458() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20459() { let _ = mk::<Rotation3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20460() { let _ = mk::<Rotation3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20461() { let _ = &mk::<Rotation3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20462() { let _ = &mk::<Rotation3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20463() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20464() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20465() { let _ = mk::<Rotation3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20466() { let _ = mk::<Rotation3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20467() { let _ = &mk::<Rotation3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20468() { let _ = &mk::<Rotation3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p20469() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20470() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p20471() { let _ = mk::<Rotation3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p20472() { let _ = mk::<Rotation3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p20473() { let _: Euler<Radians<f64>> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20474() { let _: Euler<Radians<f32>> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20475() { let _ = mk::<Rotation3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20476() { let _ = mk::<Rotation3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20477() { let _ = &mk::<Rotation3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20478() { let _ = &mk::<Rotation3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20479() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20480() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20481() { let _ = mk::<Rotation3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20482() { let _ = mk::<Rotation3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20483() { let _ = &mk::<Rotation3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20484() { let _ = &mk::<Rotation3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20485() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20486() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20487() { let _ = mk::<Rotation3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20488() { let _ = mk::<Rotation3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20489() { let _ = &mk::<Rotation3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20490() { let _ = &mk::<Rotation3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20491() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20492() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20493() { let _ = mk::<Rotation3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20494() { let _ = mk::<Rotation3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20495() { let _ = &mk::<Rotation3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20496() { let _ = &mk::<Rotation3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p20497() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20498() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p20499() { let _ = mk::<Rotation3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p20500() { let _ = mk::<Rotation3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p20501() { let _: Unit<Vector3<f64>> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20502() { let _: Unit<Vector3<f32>> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20503() { let _ = mk::<Rotation3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20504() { let _ = mk::<Rotation3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20505() { let _ = &mk::<Rotation3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20506() { let _ = &mk::<Rotation3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20507() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20508() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20509() { let _ = mk::<Rotation3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20510() { let _ = mk::<Rotation3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20511() { let _ = &mk::<Rotation3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20512() { let _ = &mk::<Rotation3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20513() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20514() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20515() { let _ = mk::<Rotation3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20516() { let _ = mk::<Rotation3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20517() { let _ = &mk::<Rotation3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20518() { let _ = &mk::<Rotation3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20519() { let mut x = mk::<Rotation3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20520() { let mut x = mk::<Rotation3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20521() { let _ = mk::<Rotation3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20522() { let _ = mk::<Rotation3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20523() { let _ = &mk::<Rotation3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20524() { let _ = &mk::<Rotation3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20525() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20526() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20527() { let _ = mk::<Rotation3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20528() { let _ = mk::<Rotation3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20529() { let _ = &mk::<Rotation3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20530() { let _ = &mk::<Rotation3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p20531() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20532() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p20533() { let _ = mk::<Rotation3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p20534() { let _ = mk::<Rotation3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p20535() { let _: Unit<Quaternion<f64>> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20536() { let _: Unit<Quaternion<f32>> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20537() { let _ = mk::<Rotation3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20538() { let _ = mk::<Rotation3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20539() { let _ = &mk::<Rotation3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20540() { let _ = &mk::<Rotation3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20541() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20542() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20543() { let _ = mk::<Rotation3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20544() { let _ = mk::<Rotation3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20545() { let _ = &mk::<Rotation3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20546() { let _ = &mk::<Rotation3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20547() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20548() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20549() { let _: Rotation3<f64> = mk::<Rotation3<f64>>() * mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p20550() { let _ = mk::<Rotation3<f64>>() * mk::<Rotation3<f32>>(); } // reject operator-precision
fn p20551() { let _ = mk::<Rotation3<f32>>() * mk::<Rotation3<f64>>(); } // reject operator-precision
fn p20552() { let _: Rotation3<f64> = mk::<Rotation3<f64>>() * &mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p20553() { let _ = mk::<Rotation3<f64>>() * &mk::<Rotation3<f32>>(); } // reject operator-precision
fn p20554() { let _ = mk::<Rotation3<f32>>() * &mk::<Rotation3<f64>>(); } // reject operator-precision
fn p20555() { let _: Rotation3<f64> = &mk::<Rotation3<f64>>() * mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p20556() { let _ = &mk::<Rotation3<f64>>() * mk::<Rotation3<f32>>(); } // reject operator-precision
fn p20557() { let _ = &mk::<Rotation3<f32>>() * mk::<Rotation3<f64>>(); } // reject operator-precision
fn p20558() { let _: Rotation3<f64> = &mk::<Rotation3<f64>>() * &mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p20559() { let _ = &mk::<Rotation3<f64>>() * &mk::<Rotation3<f32>>(); } // reject operator-precision
fn p20560() { let _ = &mk::<Rotation3<f32>>() * &mk::<Rotation3<f64>>(); } // reject operator-precision
fn p20561() { let _ = mk::<Rotation3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20562() { let _ = mk::<Rotation3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20563() { let _ = &mk::<Rotation3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20564() { let _ = &mk::<Rotation3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20565() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20566() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20567() { let _ = mk::<Rotation3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20568() { let _ = mk::<Rotation3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20569() { let _ = &mk::<Rotation3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20570() { let _ = &mk::<Rotation3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p20571() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20572() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p20573() { let _ = mk::<Rotation3<f64>>() == mk::<Rotation3<f64>>(); } // accept equality-kinds
fn p20574() { let _: Rotation3<f64> = mk::<Rotation3<f64>>(); } // accept no-implicit-conversion
fn p20575() { let _: Rotation3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20576() { let _ = mk::<Rotation3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20577() { let _ = mk::<Rotation3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20578() { let _ = &mk::<Rotation3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20579() { let _ = &mk::<Rotation3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20580() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20581() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20582() { let _ = mk::<Rotation3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20583() { let _ = mk::<Rotation3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20584() { let _ = &mk::<Rotation3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20585() { let _ = &mk::<Rotation3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20586() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20587() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20588() { let _: Isometry3<f64> = mk::<Rotation3<f64>>() * mk::<Translation3<f64>>(); } // accept operator-kinds
fn p20589() { let _ = mk::<Rotation3<f64>>() * mk::<Translation3<f32>>(); } // reject operator-precision
fn p20590() { let _ = mk::<Rotation3<f32>>() * mk::<Translation3<f64>>(); } // reject operator-precision
fn p20591() { let _: Isometry3<f64> = mk::<Rotation3<f64>>() * &mk::<Translation3<f64>>(); } // accept operator-kinds
fn p20592() { let _ = mk::<Rotation3<f64>>() * &mk::<Translation3<f32>>(); } // reject operator-precision
fn p20593() { let _ = mk::<Rotation3<f32>>() * &mk::<Translation3<f64>>(); } // reject operator-precision
fn p20594() { let _: Isometry3<f64> = &mk::<Rotation3<f64>>() * mk::<Translation3<f64>>(); } // accept operator-kinds
fn p20595() { let _ = &mk::<Rotation3<f64>>() * mk::<Translation3<f32>>(); } // reject operator-precision
fn p20596() { let _ = &mk::<Rotation3<f32>>() * mk::<Translation3<f64>>(); } // reject operator-precision
fn p20597() { let _: Isometry3<f64> = &mk::<Rotation3<f64>>() * &mk::<Translation3<f64>>(); } // accept operator-kinds
fn p20598() { let _ = &mk::<Rotation3<f64>>() * &mk::<Translation3<f32>>(); } // reject operator-precision
fn p20599() { let _ = &mk::<Rotation3<f32>>() * &mk::<Translation3<f64>>(); } // reject operator-precision
fn p20600() { let _ = mk::<Rotation3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20601() { let _ = mk::<Rotation3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20602() { let _ = &mk::<Rotation3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20603() { let _ = &mk::<Rotation3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20604() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20605() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20606() { let _ = mk::<Rotation3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20607() { let _ = mk::<Rotation3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20608() { let _ = &mk::<Rotation3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20609() { let _ = &mk::<Rotation3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p20610() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20611() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p20612() { let _ = mk::<Rotation3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p20613() { let _ = mk::<Rotation3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p20614() { let _: Translation3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20615() { let _: Translation3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20616() { let _ = mk::<Rotation3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20617() { let _ = mk::<Rotation3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20618() { let _ = &mk::<Rotation3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20619() { let _ = &mk::<Rotation3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20620() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20621() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20622() { let _ = mk::<Rotation3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20623() { let _ = mk::<Rotation3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20624() { let _ = &mk::<Rotation3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20625() { let _ = &mk::<Rotation3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20626() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20627() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20628() { let _ = mk::<Rotation3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20629() { let _ = mk::<Rotation3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20630() { let _ = &mk::<Rotation3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20631() { let _ = &mk::<Rotation3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20632() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20633() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20634() { let _ = mk::<Rotation3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20635() { let _ = mk::<Rotation3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20636() { let _ = &mk::<Rotation3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20637() { let _ = &mk::<Rotation3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p20638() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20639() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p20640() { let _ = mk::<Rotation3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p20641() { let _ = mk::<Rotation3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p20642() { let _: Scale3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20643() { let _: Scale3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20644() { let _ = mk::<Rotation3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20645() { let _ = mk::<Rotation3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20646() { let _ = &mk::<Rotation3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20647() { let _ = &mk::<Rotation3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20648() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20649() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20650() { let _ = mk::<Rotation3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20651() { let _ = mk::<Rotation3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20652() { let _ = &mk::<Rotation3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20653() { let _ = &mk::<Rotation3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20654() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20655() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20656() { let _ = mk::<Rotation3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20657() { let _ = mk::<Rotation3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20658() { let _ = &mk::<Rotation3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20659() { let _ = &mk::<Rotation3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20660() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20661() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20662() { let _ = mk::<Rotation3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20663() { let _ = mk::<Rotation3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20664() { let _ = &mk::<Rotation3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20665() { let _ = &mk::<Rotation3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p20666() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20667() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p20668() { let _ = mk::<Rotation3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p20669() { let _ = mk::<Rotation3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p20670() { let _: Shear3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20671() { let _: Shear3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20672() { let _ = mk::<Rotation3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20673() { let _ = mk::<Rotation3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20674() { let _ = &mk::<Rotation3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20675() { let _ = &mk::<Rotation3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20676() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20677() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20678() { let _ = mk::<Rotation3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20679() { let _ = mk::<Rotation3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20680() { let _ = &mk::<Rotation3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20681() { let _ = &mk::<Rotation3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20682() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20683() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20684() { let _ = mk::<Rotation3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20685() { let _ = mk::<Rotation3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20686() { let _ = &mk::<Rotation3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20687() { let _ = &mk::<Rotation3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20688() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20689() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20690() { let _ = mk::<Rotation3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20691() { let _ = mk::<Rotation3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20692() { let _ = &mk::<Rotation3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20693() { let _ = &mk::<Rotation3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p20694() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20695() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p20696() { let _ = mk::<Rotation3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p20697() { let _ = mk::<Rotation3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p20698() { let _: Reflection3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20699() { let _: Reflection3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20700() { let _ = mk::<Rotation3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20701() { let _ = mk::<Rotation3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20702() { let _ = &mk::<Rotation3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20703() { let _ = &mk::<Rotation3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20704() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20705() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20706() { let _ = mk::<Rotation3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20707() { let _ = mk::<Rotation3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20708() { let _ = &mk::<Rotation3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20709() { let _ = &mk::<Rotation3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20710() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20711() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20712() { let _: Isometry3<f64> = mk::<Rotation3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p20713() { let _ = mk::<Rotation3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p20714() { let _ = mk::<Rotation3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p20715() { let _: Isometry3<f64> = mk::<Rotation3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p20716() { let _ = mk::<Rotation3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p20717() { let _ = mk::<Rotation3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p20718() { let _: Isometry3<f64> = &mk::<Rotation3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p20719() { let _ = &mk::<Rotation3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p20720() { let _ = &mk::<Rotation3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p20721() { let _: Isometry3<f64> = &mk::<Rotation3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p20722() { let _ = &mk::<Rotation3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p20723() { let _ = &mk::<Rotation3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p20724() { let _ = mk::<Rotation3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20725() { let _ = mk::<Rotation3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20726() { let _ = &mk::<Rotation3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20727() { let _ = &mk::<Rotation3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20728() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20729() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20730() { let _ = mk::<Rotation3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20731() { let _ = mk::<Rotation3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20732() { let _ = &mk::<Rotation3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20733() { let _ = &mk::<Rotation3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p20734() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20735() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p20736() { let _ = mk::<Rotation3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p20737() { let _ = mk::<Rotation3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p20738() { let _: Isometry3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20739() { let _: Isometry3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20740() { let _ = mk::<Rotation3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20741() { let _ = mk::<Rotation3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20742() { let _ = &mk::<Rotation3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20743() { let _ = &mk::<Rotation3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20744() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20745() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20746() { let _ = mk::<Rotation3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20747() { let _ = mk::<Rotation3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20748() { let _ = &mk::<Rotation3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20749() { let _ = &mk::<Rotation3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20750() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20751() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20752() { let _ = mk::<Rotation3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20753() { let _ = mk::<Rotation3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20754() { let _ = &mk::<Rotation3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20755() { let _ = &mk::<Rotation3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20756() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20757() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20758() { let _ = mk::<Rotation3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20759() { let _ = mk::<Rotation3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20760() { let _ = &mk::<Rotation3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20761() { let _ = &mk::<Rotation3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p20762() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20763() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p20764() { let _ = mk::<Rotation3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p20765() { let _ = mk::<Rotation3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p20766() { let _: Similarity3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20767() { let _: Similarity3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20768() { let _ = mk::<Rotation3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20769() { let _ = mk::<Rotation3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20770() { let _ = &mk::<Rotation3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20771() { let _ = &mk::<Rotation3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20772() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20773() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20774() { let _ = mk::<Rotation3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20775() { let _ = mk::<Rotation3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20776() { let _ = &mk::<Rotation3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20777() { let _ = &mk::<Rotation3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20778() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20779() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20780() { let _ = mk::<Rotation3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20781() { let _ = mk::<Rotation3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20782() { let _ = &mk::<Rotation3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20783() { let _ = &mk::<Rotation3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20784() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20785() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20786() { let _ = mk::<Rotation3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20787() { let _ = mk::<Rotation3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20788() { let _ = &mk::<Rotation3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20789() { let _ = &mk::<Rotation3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p20790() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20791() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p20792() { let _ = mk::<Rotation3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p20793() { let _ = mk::<Rotation3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p20794() { let _: Transform3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20795() { let _: Transform3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20796() { let _ = mk::<Rotation3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20797() { let _ = mk::<Rotation3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20798() { let _ = &mk::<Rotation3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20799() { let _ = &mk::<Rotation3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20800() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20801() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20802() { let _ = mk::<Rotation3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20803() { let _ = mk::<Rotation3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20804() { let _ = &mk::<Rotation3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20805() { let _ = &mk::<Rotation3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20806() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20807() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20808() { let _ = mk::<Rotation3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20809() { let _ = mk::<Rotation3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20810() { let _ = &mk::<Rotation3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20811() { let _ = &mk::<Rotation3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20812() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20813() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20814() { let _ = mk::<Rotation3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20815() { let _ = mk::<Rotation3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20816() { let _ = &mk::<Rotation3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20817() { let _ = &mk::<Rotation3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p20818() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20819() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p20820() { let _ = mk::<Rotation3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p20821() { let _ = mk::<Rotation3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p20822() { let _: Perspective3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20823() { let _: Perspective3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20824() { let _ = mk::<Rotation3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20825() { let _ = mk::<Rotation3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20826() { let _ = &mk::<Rotation3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20827() { let _ = &mk::<Rotation3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20828() { let mut x = mk::<Rotation3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20829() { let mut x = mk::<Rotation3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20830() { let _ = mk::<Rotation3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20831() { let _ = mk::<Rotation3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20832() { let _ = &mk::<Rotation3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20833() { let _ = &mk::<Rotation3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20834() { let mut x = mk::<Rotation3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20835() { let mut x = mk::<Rotation3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20836() { let _ = mk::<Rotation3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20837() { let _ = mk::<Rotation3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20838() { let _ = &mk::<Rotation3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20839() { let _ = &mk::<Rotation3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20840() { let mut x = mk::<Rotation3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20841() { let mut x = mk::<Rotation3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20842() { let _ = mk::<Rotation3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20843() { let _ = mk::<Rotation3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20844() { let _ = &mk::<Rotation3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20845() { let _ = &mk::<Rotation3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p20846() { let mut x = mk::<Rotation3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20847() { let mut x = mk::<Rotation3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p20848() { let _ = mk::<Rotation3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p20849() { let _ = mk::<Rotation3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p20850() { let _: Orthographic3<f64> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20851() { let _: Orthographic3<f32> = mk::<Rotation3<f64>>(); } // reject no-implicit-conversion
fn p20852() { let _ = !mk::<Rotation3<f64>>(); } // reject negation
fn p20853() { let _ = !&mk::<Rotation3<f64>>(); } // reject negation
fn p20854() { let _ = mk::<Translation3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20855() { let _ = mk::<Translation3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20856() { let _ = &mk::<Translation3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20857() { let _ = &mk::<Translation3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20858() { let mut x = mk::<Translation3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20859() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20860() { let _ = mk::<Translation3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20861() { let _ = mk::<Translation3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20862() { let _ = &mk::<Translation3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20863() { let _ = &mk::<Translation3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20864() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20865() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20866() { let _: Vector3<f64> = mk::<Translation3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20867() { let _ = mk::<Translation3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p20868() { let _ = mk::<Translation3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p20869() { let _: Vector3<f64> = mk::<Translation3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20870() { let _ = mk::<Translation3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p20871() { let _ = mk::<Translation3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p20872() { let _: Vector3<f64> = &mk::<Translation3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20873() { let _ = &mk::<Translation3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p20874() { let _ = &mk::<Translation3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p20875() { let _: Vector3<f64> = &mk::<Translation3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p20876() { let _ = &mk::<Translation3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p20877() { let _ = &mk::<Translation3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p20878() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20879() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20880() { let _ = mk::<Translation3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20881() { let _ = mk::<Translation3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20882() { let _ = &mk::<Translation3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20883() { let _ = &mk::<Translation3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20884() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20885() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20886() { let _ = mk::<Translation3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20887() { let _ = mk::<Translation3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20888() { let _ = &mk::<Translation3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20889() { let _ = &mk::<Translation3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p20890() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20891() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p20892() { let _ = mk::<Translation3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p20893() { let _ = mk::<Translation3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p20894() { let _: Vector3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p20895() { let _: Vector3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p20896() { let _ = mk::<Translation3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20897() { let _ = mk::<Translation3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20898() { let _ = &mk::<Translation3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20899() { let _ = &mk::<Translation3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20900() { let mut x = mk::<Translation3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20901() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20902() { let _ = mk::<Translation3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20903() { let _ = mk::<Translation3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20904() { let _ = &mk::<Translation3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20905() { let _ = &mk::<Translation3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20906() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20907() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20908() { let _ = mk::<Translation3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20909() { let _ = mk::<Translation3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20910() { let _ = &mk::<Translation3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20911() { let _ = &mk::<Translation3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20912() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20913() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20914() { let _ = mk::<Translation3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20915() { let _ = mk::<Translation3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20916() { let _ = &mk::<Translation3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20917() { let _ = &mk::<Translation3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20918() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20919() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20920() { let _ = mk::<Translation3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20921() { let _ = mk::<Translation3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20922() { let _ = &mk::<Translation3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20923() { let _ = &mk::<Translation3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p20924() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20925() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p20926() { let _ = mk::<Translation3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p20927() { let _ = mk::<Translation3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p20928() { let _: Vector4<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p20929() { let _: Vector4<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p20930() { let _ = mk::<Translation3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p20931() { let _ = mk::<Translation3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20932() { let _ = &mk::<Translation3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p20933() { let _ = &mk::<Translation3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20934() { let mut x = mk::<Translation3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20935() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20936() { let _ = mk::<Translation3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p20937() { let _ = mk::<Translation3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20938() { let _ = &mk::<Translation3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p20939() { let _ = &mk::<Translation3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20940() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20941() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20942() { let _: Point3<f64> = mk::<Translation3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p20943() { let _ = mk::<Translation3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p20944() { let _ = mk::<Translation3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p20945() { let _: Point3<f64> = mk::<Translation3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p20946() { let _ = mk::<Translation3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p20947() { let _ = mk::<Translation3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p20948() { let _: Point3<f64> = &mk::<Translation3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p20949() { let _ = &mk::<Translation3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p20950() { let _ = &mk::<Translation3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p20951() { let _: Point3<f64> = &mk::<Translation3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p20952() { let _ = &mk::<Translation3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p20953() { let _ = &mk::<Translation3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p20954() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20955() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20956() { let _ = mk::<Translation3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p20957() { let _ = mk::<Translation3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20958() { let _ = &mk::<Translation3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p20959() { let _ = &mk::<Translation3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20960() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20961() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20962() { let _ = mk::<Translation3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p20963() { let _ = mk::<Translation3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20964() { let _ = &mk::<Translation3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p20965() { let _ = &mk::<Translation3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p20966() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20967() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p20968() { let _ = mk::<Translation3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p20969() { let _ = mk::<Translation3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p20970() { let _: Point3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p20971() { let _: Point3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p20972() { let _ = mk::<Translation3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20973() { let _ = mk::<Translation3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20974() { let _ = &mk::<Translation3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20975() { let _ = &mk::<Translation3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20976() { let mut x = mk::<Translation3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20977() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20978() { let _ = mk::<Translation3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20979() { let _ = mk::<Translation3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20980() { let _ = &mk::<Translation3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20981() { let _ = &mk::<Translation3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20982() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20983() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20984() { let _ = mk::<Translation3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20985() { let _ = mk::<Translation3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20986() { let _ = &mk::<Translation3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20987() { let _ = &mk::<Translation3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20988() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20989() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20990() { let _ = mk::<Translation3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20991() { let _ = mk::<Translation3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20992() { let _ = &mk::<Translation3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20993() { let _ = &mk::<Translation3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20994() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20995() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p20996() { let _ = mk::<Translation3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20997() { let _ = mk::<Translation3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20998() { let _ = &mk::<Translation3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p20999() { let _ = &mk::<Translation3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21000() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21001() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21002() { let _ = mk::<Translation3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p21003() { let _ = mk::<Translation3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p21004() { let _: Matrix3x3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21005() { let _: Matrix3x3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21006() { let _ = mk::<Translation3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21007() { let _ = mk::<Translation3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21008() { let _ = &mk::<Translation3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21009() { let _ = &mk::<Translation3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21010() { let mut x = mk::<Translation3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21011() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21012() { let _ = mk::<Translation3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21013() { let _ = mk::<Translation3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21014() { let _ = &mk::<Translation3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21015() { let _ = &mk::<Translation3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21016() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21017() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21018() { let _ = mk::<Translation3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21019() { let _ = mk::<Translation3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21020() { let _ = &mk::<Translation3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21021() { let _ = &mk::<Translation3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21022() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21023() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21024() { let _ = mk::<Translation3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21025() { let _ = mk::<Translation3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21026() { let _ = &mk::<Translation3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21027() { let _ = &mk::<Translation3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21028() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21029() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21030() { let _ = mk::<Translation3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21031() { let _ = mk::<Translation3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21032() { let _ = &mk::<Translation3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21033() { let _ = &mk::<Translation3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21034() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21035() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21036() { let _ = mk::<Translation3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p21037() { let _ = mk::<Translation3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p21038() { let _: Matrix4x4<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21039() { let _: Matrix4x4<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21040() { let _ = mk::<Translation3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21041() { let _ = mk::<Translation3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21042() { let _ = &mk::<Translation3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21043() { let _ = &mk::<Translation3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21044() { let mut x = mk::<Translation3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21045() { let mut x = mk::<Translation3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21046() { let _ = mk::<Translation3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21047() { let _ = mk::<Translation3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21048() { let _ = &mk::<Translation3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21049() { let _ = &mk::<Translation3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21050() { let mut x = mk::<Translation3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21051() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21052() { let _ = mk::<Translation3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21053() { let _ = mk::<Translation3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21054() { let _ = &mk::<Translation3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21055() { let _ = &mk::<Translation3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21056() { let mut x = mk::<Translation3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21057() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21058() { let _ = mk::<Translation3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21059() { let _ = mk::<Translation3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21060() { let _ = &mk::<Translation3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21061() { let _ = &mk::<Translation3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21062() { let mut x = mk::<Translation3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21063() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21064() { let _ = mk::<Translation3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21065() { let _ = mk::<Translation3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21066() { let _ = &mk::<Translation3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21067() { let _ = &mk::<Translation3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21068() { let mut x = mk::<Translation3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21069() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21070() { let _ = mk::<Translation3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p21071() { let _ = mk::<Translation3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p21072() { let _: RowVector3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21073() { let _: RowVector3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21074() { let _ = mk::<Translation3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21075() { let _ = mk::<Translation3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21076() { let _ = &mk::<Translation3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21077() { let _ = &mk::<Translation3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21078() { let mut x = mk::<Translation3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21079() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21080() { let _ = mk::<Translation3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21081() { let _ = mk::<Translation3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21082() { let _ = &mk::<Translation3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21083() { let _ = &mk::<Translation3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21084() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21085() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21086() { let _ = mk::<Translation3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21087() { let _ = mk::<Translation3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21088() { let _ = &mk::<Translation3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21089() { let _ = &mk::<Translation3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21090() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21091() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21092() { let _ = mk::<Translation3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21093() { let _ = mk::<Translation3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21094() { let _ = &mk::<Translation3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21095() { let _ = &mk::<Translation3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21096() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21097() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21098() { let _ = mk::<Translation3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21099() { let _ = mk::<Translation3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21100() { let _ = &mk::<Translation3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21101() { let _ = &mk::<Translation3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21102() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21103() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21104() { let _ = mk::<Translation3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p21105() { let _ = mk::<Translation3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p21106() { let _: Quaternion<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21107() { let _: Quaternion<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21108() { let _ = mk::<Translation3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p21109() { let _ = mk::<Translation3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21110() { let _ = &mk::<Translation3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p21111() { let _ = &mk::<Translation3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21112() { let mut x = mk::<Translation3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21113() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21114() { let _ = mk::<Translation3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p21115() { let _ = mk::<Translation3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21116() { let _ = &mk::<Translation3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p21117() { let _ = &mk::<Translation3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21118() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21119() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21120() { let _ = mk::<Translation3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p21121() { let _ = mk::<Translation3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21122() { let _ = &mk::<Translation3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p21123() { let _ = &mk::<Translation3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21124() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21125() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21126() { let _ = mk::<Translation3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p21127() { let _ = mk::<Translation3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21128() { let _ = &mk::<Translation3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p21129() { let _ = &mk::<Translation3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21130() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21131() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21132() { let _ = mk::<Translation3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p21133() { let _ = mk::<Translation3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21134() { let _ = &mk::<Translation3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p21135() { let _ = &mk::<Translation3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21136() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21137() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21138() { let _ = mk::<Translation3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p21139() { let _ = mk::<Translation3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p21140() { let _: Complex<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21141() { let _: Complex<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21142() { let _ = mk::<Translation3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p21143() { let _ = mk::<Translation3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21144() { let _ = &mk::<Translation3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p21145() { let _ = &mk::<Translation3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21146() { let mut x = mk::<Translation3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21147() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21148() { let _ = mk::<Translation3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p21149() { let _ = mk::<Translation3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21150() { let _ = &mk::<Translation3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p21151() { let _ = &mk::<Translation3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21152() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21153() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21154() { let _ = mk::<Translation3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p21155() { let _ = mk::<Translation3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21156() { let _ = &mk::<Translation3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p21157() { let _ = &mk::<Translation3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21158() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21159() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21160() { let _ = mk::<Translation3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p21161() { let _ = mk::<Translation3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21162() { let _ = &mk::<Translation3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p21163() { let _ = &mk::<Translation3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21164() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21165() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21166() { let _ = mk::<Translation3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p21167() { let _ = mk::<Translation3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21168() { let _ = &mk::<Translation3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p21169() { let _ = &mk::<Translation3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21170() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21171() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21172() { let _ = mk::<Translation3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p21173() { let _ = mk::<Translation3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p21174() { let _: Radians<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21175() { let _: Radians<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21176() { let _ = mk::<Translation3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21177() { let _ = mk::<Translation3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21178() { let _ = &mk::<Translation3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21179() { let _ = &mk::<Translation3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21180() { let mut x = mk::<Translation3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21181() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21182() { let _ = mk::<Translation3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21183() { let _ = mk::<Translation3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21184() { let _ = &mk::<Translation3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21185() { let _ = &mk::<Translation3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21186() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21187() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21188() { let _ = mk::<Translation3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21189() { let _ = mk::<Translation3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21190() { let _ = &mk::<Translation3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21191() { let _ = &mk::<Translation3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21192() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21193() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21194() { let _ = mk::<Translation3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21195() { let _ = mk::<Translation3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21196() { let _ = &mk::<Translation3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21197() { let _ = &mk::<Translation3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21198() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21199() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21200() { let _ = mk::<Translation3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21201() { let _ = mk::<Translation3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21202() { let _ = &mk::<Translation3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21203() { let _ = &mk::<Translation3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21204() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21205() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21206() { let _ = mk::<Translation3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p21207() { let _ = mk::<Translation3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p21208() { let _: Degrees<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21209() { let _: Degrees<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21210() { let _ = mk::<Translation3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p21211() { let _ = mk::<Translation3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p21212() { let _ = &mk::<Translation3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p21213() { let _ = &mk::<Translation3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p21214() { let mut x = mk::<Translation3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p21215() { let mut x = mk::<Translation3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p21216() { let _ = mk::<Translation3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p21217() { let _ = mk::<Translation3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p21218() { let _ = &mk::<Translation3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p21219() { let _ = &mk::<Translation3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p21220() { let mut x = mk::<Translation3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p21221() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p21222() { let _ = mk::<Translation3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p21223() { let _ = mk::<Translation3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p21224() { let _ = &mk::<Translation3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p21225() { let _ = &mk::<Translation3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p21226() { let mut x = mk::<Translation3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p21227() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p21228() { let _ = mk::<Translation3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p21229() { let _ = mk::<Translation3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p21230() { let _ = &mk::<Translation3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p21231() { let _ = &mk::<Translation3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p21232() { let mut x = mk::<Translation3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p21233() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p21234() { let _ = mk::<Translation3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p21235() { let _ = mk::<Translation3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p21236() { let _ = &mk::<Translation3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p21237() { let _ = &mk::<Translation3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p21238() { let mut x = mk::<Translation3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p21239() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p21240() { let _ = mk::<Translation3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p21241() { let _ = mk::<Translation3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p21242() { let _: f64 = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21243() { let _: f32 = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21244() { let _ = mk::<Translation3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21245() { let _ = mk::<Translation3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21246() { let _ = &mk::<Translation3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21247() { let _ = &mk::<Translation3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21248() { let mut x = mk::<Translation3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21249() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21250() { let _ = mk::<Translation3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21251() { let _ = mk::<Translation3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21252() { let _ = &mk::<Translation3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21253() { let _ = &mk::<Translation3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21254() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21255() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21256() { let _ = mk::<Translation3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21257() { let _ = mk::<Translation3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21258() { let _ = &mk::<Translation3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21259() { let _ = &mk::<Translation3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21260() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21261() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21262() { let _ = mk::<Translation3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21263() { let _ = mk::<Translation3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21264() { let _ = &mk::<Translation3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21265() { let _ = &mk::<Translation3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21266() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21267() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21268() { let _ = mk::<Translation3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21269() { let _ = mk::<Translation3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21270() { let _ = &mk::<Translation3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21271() { let _ = &mk::<Translation3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p21272() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21273() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p21274() { let _ = mk::<Translation3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p21275() { let _ = mk::<Translation3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p21276() { let _: Euler<Radians<f64>> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21277() { let _: Euler<Radians<f32>> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21278() { let _ = mk::<Translation3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21279() { let _ = mk::<Translation3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21280() { let _ = &mk::<Translation3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21281() { let _ = &mk::<Translation3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21282() { let mut x = mk::<Translation3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21283() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21284() { let _ = mk::<Translation3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21285() { let _ = mk::<Translation3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21286() { let _ = &mk::<Translation3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21287() { let _ = &mk::<Translation3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21288() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21289() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21290() { let _ = mk::<Translation3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21291() { let _ = mk::<Translation3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21292() { let _ = &mk::<Translation3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21293() { let _ = &mk::<Translation3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21294() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21295() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21296() { let _ = mk::<Translation3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21297() { let _ = mk::<Translation3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21298() { let _ = &mk::<Translation3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21299() { let _ = &mk::<Translation3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p21300() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21301() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p21302() { let _ = mk::<Translation3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p21303() { let _ = mk::<Translation3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p21304() { let _: Unit<Vector3<f64>> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21305() { let _: Unit<Vector3<f32>> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21306() { let _ = mk::<Translation3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21307() { let _ = mk::<Translation3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21308() { let _ = &mk::<Translation3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21309() { let _ = &mk::<Translation3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21310() { let mut x = mk::<Translation3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21311() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21312() { let _ = mk::<Translation3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21313() { let _ = mk::<Translation3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21314() { let _ = &mk::<Translation3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21315() { let _ = &mk::<Translation3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21316() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21317() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21318() { let _ = mk::<Translation3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21319() { let _ = mk::<Translation3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21320() { let _ = &mk::<Translation3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21321() { let _ = &mk::<Translation3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21322() { let mut x = mk::<Translation3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21323() { let mut x = mk::<Translation3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21324() { let _ = mk::<Translation3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21325() { let _ = mk::<Translation3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21326() { let _ = &mk::<Translation3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21327() { let _ = &mk::<Translation3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21328() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21329() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21330() { let _ = mk::<Translation3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21331() { let _ = mk::<Translation3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21332() { let _ = &mk::<Translation3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21333() { let _ = &mk::<Translation3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p21334() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21335() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p21336() { let _ = mk::<Translation3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p21337() { let _ = mk::<Translation3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p21338() { let _: Unit<Quaternion<f64>> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21339() { let _: Unit<Quaternion<f32>> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21340() { let _ = mk::<Translation3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21341() { let _ = mk::<Translation3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21342() { let _ = &mk::<Translation3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21343() { let _ = &mk::<Translation3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21344() { let mut x = mk::<Translation3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21345() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21346() { let _ = mk::<Translation3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21347() { let _ = mk::<Translation3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21348() { let _ = &mk::<Translation3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21349() { let _ = &mk::<Translation3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21350() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21351() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21352() { let _: Isometry3<f64> = mk::<Translation3<f64>>() * mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p21353() { let _ = mk::<Translation3<f64>>() * mk::<Rotation3<f32>>(); } // reject operator-precision
fn p21354() { let _ = mk::<Translation3<f32>>() * mk::<Rotation3<f64>>(); } // reject operator-precision
fn p21355() { let _: Isometry3<f64> = mk::<Translation3<f64>>() * &mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p21356() { let _ = mk::<Translation3<f64>>() * &mk::<Rotation3<f32>>(); } // reject operator-precision
fn p21357() { let _ = mk::<Translation3<f32>>() * &mk::<Rotation3<f64>>(); } // reject operator-precision
fn p21358() { let _: Isometry3<f64> = &mk::<Translation3<f64>>() * mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p21359() { let _ = &mk::<Translation3<f64>>() * mk::<Rotation3<f32>>(); } // reject operator-precision
fn p21360() { let _ = &mk::<Translation3<f32>>() * mk::<Rotation3<f64>>(); } // reject operator-precision
fn p21361() { let _: Isometry3<f64> = &mk::<Translation3<f64>>() * &mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p21362() { let _ = &mk::<Translation3<f64>>() * &mk::<Rotation3<f32>>(); } // reject operator-precision
fn p21363() { let _ = &mk::<Translation3<f32>>() * &mk::<Rotation3<f64>>(); } // reject operator-precision
fn p21364() { let _ = mk::<Translation3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21365() { let _ = mk::<Translation3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21366() { let _ = &mk::<Translation3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21367() { let _ = &mk::<Translation3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21368() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21369() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21370() { let _ = mk::<Translation3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21371() { let _ = mk::<Translation3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21372() { let _ = &mk::<Translation3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21373() { let _ = &mk::<Translation3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p21374() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21375() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p21376() { let _ = mk::<Translation3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p21377() { let _ = mk::<Translation3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p21378() { let _: Rotation3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21379() { let _: Rotation3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21380() { let _ = mk::<Translation3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21381() { let _ = mk::<Translation3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21382() { let _ = &mk::<Translation3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21383() { let _ = &mk::<Translation3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21384() { let mut x = mk::<Translation3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21385() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21386() { let _ = mk::<Translation3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21387() { let _ = mk::<Translation3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21388() { let _ = &mk::<Translation3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21389() { let _ = &mk::<Translation3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21390() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21391() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21392() { let _: Translation3<f64> = mk::<Translation3<f64>>() * mk::<Translation3<f64>>(); } // accept operator-kinds
fn p21393() { let _ = mk::<Translation3<f64>>() * mk::<Translation3<f32>>(); } // reject operator-precision
fn p21394() { let _ = mk::<Translation3<f32>>() * mk::<Translation3<f64>>(); } // reject operator-precision
fn p21395() { let _: Translation3<f64> = mk::<Translation3<f64>>() * &mk::<Translation3<f64>>(); } // accept operator-kinds
fn p21396() { let _ = mk::<Translation3<f64>>() * &mk::<Translation3<f32>>(); } // reject operator-precision
fn p21397() { let _ = mk::<Translation3<f32>>() * &mk::<Translation3<f64>>(); } // reject operator-precision
fn p21398() { let _: Translation3<f64> = &mk::<Translation3<f64>>() * mk::<Translation3<f64>>(); } // accept operator-kinds
fn p21399() { let _ = &mk::<Translation3<f64>>() * mk::<Translation3<f32>>(); } // reject operator-precision
fn p21400() { let _ = &mk::<Translation3<f32>>() * mk::<Translation3<f64>>(); } // reject operator-precision
fn p21401() { let _: Translation3<f64> = &mk::<Translation3<f64>>() * &mk::<Translation3<f64>>(); } // accept operator-kinds
fn p21402() { let _ = &mk::<Translation3<f64>>() * &mk::<Translation3<f32>>(); } // reject operator-precision
fn p21403() { let _ = &mk::<Translation3<f32>>() * &mk::<Translation3<f64>>(); } // reject operator-precision
fn p21404() { let _ = mk::<Translation3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21405() { let _ = mk::<Translation3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21406() { let _ = &mk::<Translation3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21407() { let _ = &mk::<Translation3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21408() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21409() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21410() { let _ = mk::<Translation3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21411() { let _ = mk::<Translation3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21412() { let _ = &mk::<Translation3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21413() { let _ = &mk::<Translation3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p21414() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21415() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p21416() { let _ = mk::<Translation3<f64>>() == mk::<Translation3<f64>>(); } // accept equality-kinds
fn p21417() { let _: Translation3<f64> = mk::<Translation3<f64>>(); } // accept no-implicit-conversion
fn p21418() { let _: Translation3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21419() { let _ = mk::<Translation3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21420() { let _ = mk::<Translation3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21421() { let _ = &mk::<Translation3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21422() { let _ = &mk::<Translation3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21423() { let mut x = mk::<Translation3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21424() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21425() { let _ = mk::<Translation3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21426() { let _ = mk::<Translation3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21427() { let _ = &mk::<Translation3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21428() { let _ = &mk::<Translation3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21429() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21430() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21431() { let _ = mk::<Translation3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21432() { let _ = mk::<Translation3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21433() { let _ = &mk::<Translation3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21434() { let _ = &mk::<Translation3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21435() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21436() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21437() { let _ = mk::<Translation3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21438() { let _ = mk::<Translation3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21439() { let _ = &mk::<Translation3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21440() { let _ = &mk::<Translation3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p21441() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21442() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p21443() { let _ = mk::<Translation3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p21444() { let _ = mk::<Translation3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p21445() { let _: Scale3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21446() { let _: Scale3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21447() { let _ = mk::<Translation3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21448() { let _ = mk::<Translation3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21449() { let _ = &mk::<Translation3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21450() { let _ = &mk::<Translation3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21451() { let mut x = mk::<Translation3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21452() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21453() { let _ = mk::<Translation3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21454() { let _ = mk::<Translation3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21455() { let _ = &mk::<Translation3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21456() { let _ = &mk::<Translation3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21457() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21458() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21459() { let _ = mk::<Translation3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21460() { let _ = mk::<Translation3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21461() { let _ = &mk::<Translation3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21462() { let _ = &mk::<Translation3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21463() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21464() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21465() { let _ = mk::<Translation3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21466() { let _ = mk::<Translation3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21467() { let _ = &mk::<Translation3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21468() { let _ = &mk::<Translation3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p21469() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21470() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p21471() { let _ = mk::<Translation3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p21472() { let _ = mk::<Translation3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p21473() { let _: Shear3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21474() { let _: Shear3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21475() { let _ = mk::<Translation3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21476() { let _ = mk::<Translation3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21477() { let _ = &mk::<Translation3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21478() { let _ = &mk::<Translation3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21479() { let mut x = mk::<Translation3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21480() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21481() { let _ = mk::<Translation3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21482() { let _ = mk::<Translation3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21483() { let _ = &mk::<Translation3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21484() { let _ = &mk::<Translation3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21485() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21486() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21487() { let _ = mk::<Translation3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21488() { let _ = mk::<Translation3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21489() { let _ = &mk::<Translation3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21490() { let _ = &mk::<Translation3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21491() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21492() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21493() { let _ = mk::<Translation3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21494() { let _ = mk::<Translation3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21495() { let _ = &mk::<Translation3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21496() { let _ = &mk::<Translation3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p21497() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21498() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p21499() { let _ = mk::<Translation3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p21500() { let _ = mk::<Translation3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p21501() { let _: Reflection3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21502() { let _: Reflection3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21503() { let _ = mk::<Translation3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21504() { let _ = mk::<Translation3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21505() { let _ = &mk::<Translation3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21506() { let _ = &mk::<Translation3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21507() { let mut x = mk::<Translation3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21508() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21509() { let _ = mk::<Translation3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21510() { let _ = mk::<Translation3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21511() { let _ = &mk::<Translation3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21512() { let _ = &mk::<Translation3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21513() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21514() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21515() { let _: Isometry3<f64> = mk::<Translation3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p21516() { let _ = mk::<Translation3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p21517() { let _ = mk::<Translation3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p21518() { let _: Isometry3<f64> = mk::<Translation3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p21519() { let _ = mk::<Translation3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p21520() { let _ = mk::<Translation3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p21521() { let _: Isometry3<f64> = &mk::<Translation3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p21522() { let _ = &mk::<Translation3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p21523() { let _ = &mk::<Translation3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p21524() { let _: Isometry3<f64> = &mk::<Translation3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p21525() { let _ = &mk::<Translation3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p21526() { let _ = &mk::<Translation3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p21527() { let _ = mk::<Translation3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21528() { let _ = mk::<Translation3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21529() { let _ = &mk::<Translation3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21530() { let _ = &mk::<Translation3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21531() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21532() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21533() { let _ = mk::<Translation3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21534() { let _ = mk::<Translation3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21535() { let _ = &mk::<Translation3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21536() { let _ = &mk::<Translation3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p21537() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21538() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p21539() { let _ = mk::<Translation3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p21540() { let _ = mk::<Translation3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p21541() { let _: Isometry3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21542() { let _: Isometry3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21543() { let _ = mk::<Translation3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21544() { let _ = mk::<Translation3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21545() { let _ = &mk::<Translation3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21546() { let _ = &mk::<Translation3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21547() { let mut x = mk::<Translation3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21548() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21549() { let _ = mk::<Translation3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21550() { let _ = mk::<Translation3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21551() { let _ = &mk::<Translation3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21552() { let _ = &mk::<Translation3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21553() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21554() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21555() { let _ = mk::<Translation3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21556() { let _ = mk::<Translation3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21557() { let _ = &mk::<Translation3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21558() { let _ = &mk::<Translation3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21559() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21560() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21561() { let _ = mk::<Translation3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21562() { let _ = mk::<Translation3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21563() { let _ = &mk::<Translation3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21564() { let _ = &mk::<Translation3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p21565() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21566() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p21567() { let _ = mk::<Translation3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p21568() { let _ = mk::<Translation3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p21569() { let _: Similarity3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21570() { let _: Similarity3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21571() { let _ = mk::<Translation3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21572() { let _ = mk::<Translation3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21573() { let _ = &mk::<Translation3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21574() { let _ = &mk::<Translation3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21575() { let mut x = mk::<Translation3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21576() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21577() { let _ = mk::<Translation3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21578() { let _ = mk::<Translation3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21579() { let _ = &mk::<Translation3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21580() { let _ = &mk::<Translation3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21581() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21582() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21583() { let _ = mk::<Translation3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21584() { let _ = mk::<Translation3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21585() { let _ = &mk::<Translation3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21586() { let _ = &mk::<Translation3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21587() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21588() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21589() { let _ = mk::<Translation3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21590() { let _ = mk::<Translation3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21591() { let _ = &mk::<Translation3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21592() { let _ = &mk::<Translation3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p21593() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21594() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p21595() { let _ = mk::<Translation3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p21596() { let _ = mk::<Translation3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p21597() { let _: Transform3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21598() { let _: Transform3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21599() { let _ = mk::<Translation3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21600() { let _ = mk::<Translation3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21601() { let _ = &mk::<Translation3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21602() { let _ = &mk::<Translation3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21603() { let mut x = mk::<Translation3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21604() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21605() { let _ = mk::<Translation3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21606() { let _ = mk::<Translation3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21607() { let _ = &mk::<Translation3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21608() { let _ = &mk::<Translation3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21609() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21610() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21611() { let _ = mk::<Translation3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21612() { let _ = mk::<Translation3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21613() { let _ = &mk::<Translation3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21614() { let _ = &mk::<Translation3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21615() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21616() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21617() { let _ = mk::<Translation3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21618() { let _ = mk::<Translation3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21619() { let _ = &mk::<Translation3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21620() { let _ = &mk::<Translation3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p21621() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21622() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p21623() { let _ = mk::<Translation3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p21624() { let _ = mk::<Translation3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p21625() { let _: Perspective3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21626() { let _: Perspective3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21627() { let _ = mk::<Translation3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21628() { let _ = mk::<Translation3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21629() { let _ = &mk::<Translation3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21630() { let _ = &mk::<Translation3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21631() { let mut x = mk::<Translation3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21632() { let mut x = mk::<Translation3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21633() { let _ = mk::<Translation3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21634() { let _ = mk::<Translation3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21635() { let _ = &mk::<Translation3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21636() { let _ = &mk::<Translation3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21637() { let mut x = mk::<Translation3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21638() { let mut x = mk::<Translation3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21639() { let _ = mk::<Translation3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21640() { let _ = mk::<Translation3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21641() { let _ = &mk::<Translation3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21642() { let _ = &mk::<Translation3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21643() { let mut x = mk::<Translation3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21644() { let mut x = mk::<Translation3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21645() { let _ = mk::<Translation3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21646() { let _ = mk::<Translation3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21647() { let _ = &mk::<Translation3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21648() { let _ = &mk::<Translation3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p21649() { let mut x = mk::<Translation3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21650() { let mut x = mk::<Translation3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p21651() { let _ = mk::<Translation3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p21652() { let _ = mk::<Translation3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p21653() { let _: Orthographic3<f64> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21654() { let _: Orthographic3<f32> = mk::<Translation3<f64>>(); } // reject no-implicit-conversion
fn p21655() { let _ = !mk::<Translation3<f64>>(); } // reject negation
fn p21656() { let _ = !&mk::<Translation3<f64>>(); } // reject negation
fn p21657() { let _ = mk::<Scale3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21658() { let _ = mk::<Scale3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21659() { let _ = &mk::<Scale3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21660() { let _ = &mk::<Scale3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21661() { let mut x = mk::<Scale3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21662() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21663() { let _ = mk::<Scale3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21664() { let _ = mk::<Scale3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21665() { let _ = &mk::<Scale3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21666() { let _ = &mk::<Scale3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21667() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21668() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21669() { let _: Vector3<f64> = mk::<Scale3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p21670() { let _ = mk::<Scale3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p21671() { let _ = mk::<Scale3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p21672() { let _: Vector3<f64> = mk::<Scale3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p21673() { let _ = mk::<Scale3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p21674() { let _ = mk::<Scale3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p21675() { let _: Vector3<f64> = &mk::<Scale3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p21676() { let _ = &mk::<Scale3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p21677() { let _ = &mk::<Scale3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p21678() { let _: Vector3<f64> = &mk::<Scale3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p21679() { let _ = &mk::<Scale3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p21680() { let _ = &mk::<Scale3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p21681() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21682() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21683() { let _ = mk::<Scale3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21684() { let _ = mk::<Scale3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21685() { let _ = &mk::<Scale3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21686() { let _ = &mk::<Scale3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21687() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21688() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21689() { let _ = mk::<Scale3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21690() { let _ = mk::<Scale3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21691() { let _ = &mk::<Scale3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21692() { let _ = &mk::<Scale3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p21693() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21694() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p21695() { let _ = mk::<Scale3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p21696() { let _ = mk::<Scale3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p21697() { let _: Vector3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21698() { let _: Vector3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21699() { let _ = mk::<Scale3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21700() { let _ = mk::<Scale3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21701() { let _ = &mk::<Scale3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21702() { let _ = &mk::<Scale3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21703() { let mut x = mk::<Scale3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21704() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21705() { let _ = mk::<Scale3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21706() { let _ = mk::<Scale3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21707() { let _ = &mk::<Scale3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21708() { let _ = &mk::<Scale3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21709() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21710() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21711() { let _ = mk::<Scale3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21712() { let _ = mk::<Scale3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21713() { let _ = &mk::<Scale3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21714() { let _ = &mk::<Scale3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21715() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21716() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21717() { let _ = mk::<Scale3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21718() { let _ = mk::<Scale3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21719() { let _ = &mk::<Scale3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21720() { let _ = &mk::<Scale3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21721() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21722() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21723() { let _ = mk::<Scale3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21724() { let _ = mk::<Scale3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21725() { let _ = &mk::<Scale3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21726() { let _ = &mk::<Scale3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p21727() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21728() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p21729() { let _ = mk::<Scale3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p21730() { let _ = mk::<Scale3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p21731() { let _: Vector4<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21732() { let _: Vector4<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21733() { let _ = mk::<Scale3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p21734() { let _ = mk::<Scale3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21735() { let _ = &mk::<Scale3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p21736() { let _ = &mk::<Scale3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21737() { let mut x = mk::<Scale3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21738() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21739() { let _ = mk::<Scale3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p21740() { let _ = mk::<Scale3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21741() { let _ = &mk::<Scale3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p21742() { let _ = &mk::<Scale3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21743() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21744() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21745() { let _: Point3<f64> = mk::<Scale3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p21746() { let _ = mk::<Scale3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p21747() { let _ = mk::<Scale3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p21748() { let _: Point3<f64> = mk::<Scale3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p21749() { let _ = mk::<Scale3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p21750() { let _ = mk::<Scale3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p21751() { let _: Point3<f64> = &mk::<Scale3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p21752() { let _ = &mk::<Scale3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p21753() { let _ = &mk::<Scale3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p21754() { let _: Point3<f64> = &mk::<Scale3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p21755() { let _ = &mk::<Scale3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p21756() { let _ = &mk::<Scale3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p21757() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21758() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21759() { let _ = mk::<Scale3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p21760() { let _ = mk::<Scale3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21761() { let _ = &mk::<Scale3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p21762() { let _ = &mk::<Scale3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21763() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21764() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21765() { let _ = mk::<Scale3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p21766() { let _ = mk::<Scale3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21767() { let _ = &mk::<Scale3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p21768() { let _ = &mk::<Scale3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p21769() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21770() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p21771() { let _ = mk::<Scale3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p21772() { let _ = mk::<Scale3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p21773() { let _: Point3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21774() { let _: Point3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21775() { let _ = mk::<Scale3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21776() { let _ = mk::<Scale3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21777() { let _ = &mk::<Scale3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21778() { let _ = &mk::<Scale3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21779() { let mut x = mk::<Scale3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21780() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21781() { let _ = mk::<Scale3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21782() { let _ = mk::<Scale3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21783() { let _ = &mk::<Scale3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21784() { let _ = &mk::<Scale3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21785() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21786() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21787() { let _ = mk::<Scale3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21788() { let _ = mk::<Scale3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21789() { let _ = &mk::<Scale3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21790() { let _ = &mk::<Scale3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21791() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21792() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21793() { let _ = mk::<Scale3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21794() { let _ = mk::<Scale3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21795() { let _ = &mk::<Scale3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21796() { let _ = &mk::<Scale3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21797() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21798() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21799() { let _ = mk::<Scale3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21800() { let _ = mk::<Scale3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21801() { let _ = &mk::<Scale3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21802() { let _ = &mk::<Scale3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p21803() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21804() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p21805() { let _ = mk::<Scale3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p21806() { let _ = mk::<Scale3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p21807() { let _: Matrix3x3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21808() { let _: Matrix3x3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21809() { let _ = mk::<Scale3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21810() { let _ = mk::<Scale3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21811() { let _ = &mk::<Scale3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21812() { let _ = &mk::<Scale3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21813() { let mut x = mk::<Scale3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21814() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21815() { let _ = mk::<Scale3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21816() { let _ = mk::<Scale3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21817() { let _ = &mk::<Scale3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21818() { let _ = &mk::<Scale3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21819() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21820() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21821() { let _ = mk::<Scale3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21822() { let _ = mk::<Scale3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21823() { let _ = &mk::<Scale3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21824() { let _ = &mk::<Scale3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21825() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21826() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21827() { let _ = mk::<Scale3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21828() { let _ = mk::<Scale3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21829() { let _ = &mk::<Scale3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21830() { let _ = &mk::<Scale3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21831() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21832() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21833() { let _ = mk::<Scale3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21834() { let _ = mk::<Scale3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21835() { let _ = &mk::<Scale3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21836() { let _ = &mk::<Scale3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p21837() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21838() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p21839() { let _ = mk::<Scale3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p21840() { let _ = mk::<Scale3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p21841() { let _: Matrix4x4<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21842() { let _: Matrix4x4<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21843() { let _ = mk::<Scale3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21844() { let _ = mk::<Scale3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21845() { let _ = &mk::<Scale3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21846() { let _ = &mk::<Scale3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21847() { let mut x = mk::<Scale3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21848() { let mut x = mk::<Scale3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21849() { let _ = mk::<Scale3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21850() { let _ = mk::<Scale3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21851() { let _ = &mk::<Scale3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21852() { let _ = &mk::<Scale3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21853() { let mut x = mk::<Scale3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21854() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21855() { let _ = mk::<Scale3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21856() { let _ = mk::<Scale3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21857() { let _ = &mk::<Scale3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21858() { let _ = &mk::<Scale3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21859() { let mut x = mk::<Scale3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21860() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21861() { let _ = mk::<Scale3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21862() { let _ = mk::<Scale3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21863() { let _ = &mk::<Scale3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21864() { let _ = &mk::<Scale3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21865() { let mut x = mk::<Scale3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21866() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21867() { let _ = mk::<Scale3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21868() { let _ = mk::<Scale3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21869() { let _ = &mk::<Scale3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21870() { let _ = &mk::<Scale3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p21871() { let mut x = mk::<Scale3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21872() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p21873() { let _ = mk::<Scale3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p21874() { let _ = mk::<Scale3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p21875() { let _: RowVector3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21876() { let _: RowVector3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21877() { let _ = mk::<Scale3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21878() { let _ = mk::<Scale3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21879() { let _ = &mk::<Scale3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21880() { let _ = &mk::<Scale3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21881() { let mut x = mk::<Scale3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21882() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21883() { let _ = mk::<Scale3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21884() { let _ = mk::<Scale3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21885() { let _ = &mk::<Scale3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21886() { let _ = &mk::<Scale3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21887() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21888() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21889() { let _ = mk::<Scale3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21890() { let _ = mk::<Scale3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21891() { let _ = &mk::<Scale3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21892() { let _ = &mk::<Scale3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21893() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21894() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21895() { let _ = mk::<Scale3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21896() { let _ = mk::<Scale3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21897() { let _ = &mk::<Scale3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21898() { let _ = &mk::<Scale3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21899() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21900() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21901() { let _ = mk::<Scale3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21902() { let _ = mk::<Scale3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21903() { let _ = &mk::<Scale3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21904() { let _ = &mk::<Scale3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p21905() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21906() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p21907() { let _ = mk::<Scale3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p21908() { let _ = mk::<Scale3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p21909() { let _: Quaternion<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21910() { let _: Quaternion<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21911() { let _ = mk::<Scale3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p21912() { let _ = mk::<Scale3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21913() { let _ = &mk::<Scale3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p21914() { let _ = &mk::<Scale3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21915() { let mut x = mk::<Scale3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21916() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21917() { let _ = mk::<Scale3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p21918() { let _ = mk::<Scale3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21919() { let _ = &mk::<Scale3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p21920() { let _ = &mk::<Scale3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21921() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21922() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21923() { let _ = mk::<Scale3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p21924() { let _ = mk::<Scale3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21925() { let _ = &mk::<Scale3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p21926() { let _ = &mk::<Scale3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21927() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21928() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21929() { let _ = mk::<Scale3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p21930() { let _ = mk::<Scale3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21931() { let _ = &mk::<Scale3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p21932() { let _ = &mk::<Scale3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21933() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21934() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21935() { let _ = mk::<Scale3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p21936() { let _ = mk::<Scale3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21937() { let _ = &mk::<Scale3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p21938() { let _ = &mk::<Scale3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p21939() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21940() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p21941() { let _ = mk::<Scale3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p21942() { let _ = mk::<Scale3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p21943() { let _: Complex<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21944() { let _: Complex<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21945() { let _ = mk::<Scale3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p21946() { let _ = mk::<Scale3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21947() { let _ = &mk::<Scale3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p21948() { let _ = &mk::<Scale3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21949() { let mut x = mk::<Scale3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21950() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21951() { let _ = mk::<Scale3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p21952() { let _ = mk::<Scale3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21953() { let _ = &mk::<Scale3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p21954() { let _ = &mk::<Scale3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21955() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21956() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21957() { let _ = mk::<Scale3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p21958() { let _ = mk::<Scale3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21959() { let _ = &mk::<Scale3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p21960() { let _ = &mk::<Scale3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21961() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21962() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21963() { let _ = mk::<Scale3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p21964() { let _ = mk::<Scale3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21965() { let _ = &mk::<Scale3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p21966() { let _ = &mk::<Scale3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21967() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21968() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21969() { let _ = mk::<Scale3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p21970() { let _ = mk::<Scale3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21971() { let _ = &mk::<Scale3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p21972() { let _ = &mk::<Scale3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p21973() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21974() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p21975() { let _ = mk::<Scale3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p21976() { let _ = mk::<Scale3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p21977() { let _: Radians<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21978() { let _: Radians<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p21979() { let _ = mk::<Scale3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21980() { let _ = mk::<Scale3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21981() { let _ = &mk::<Scale3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21982() { let _ = &mk::<Scale3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21983() { let mut x = mk::<Scale3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21984() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21985() { let _ = mk::<Scale3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21986() { let _ = mk::<Scale3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21987() { let _ = &mk::<Scale3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21988() { let _ = &mk::<Scale3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21989() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21990() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21991() { let _ = mk::<Scale3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21992() { let _ = mk::<Scale3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21993() { let _ = &mk::<Scale3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21994() { let _ = &mk::<Scale3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21995() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21996() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p21997() { let _ = mk::<Scale3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21998() { let _ = mk::<Scale3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p21999() { let _ = &mk::<Scale3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22000() { let _ = &mk::<Scale3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22001() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22002() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22003() { let _ = mk::<Scale3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22004() { let _ = mk::<Scale3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22005() { let _ = &mk::<Scale3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22006() { let _ = &mk::<Scale3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22007() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22008() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22009() { let _ = mk::<Scale3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p22010() { let _ = mk::<Scale3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p22011() { let _: Degrees<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22012() { let _: Degrees<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22013() { let _ = mk::<Scale3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p22014() { let _ = mk::<Scale3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p22015() { let _ = &mk::<Scale3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p22016() { let _ = &mk::<Scale3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p22017() { let mut x = mk::<Scale3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p22018() { let mut x = mk::<Scale3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p22019() { let _ = mk::<Scale3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p22020() { let _ = mk::<Scale3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p22021() { let _ = &mk::<Scale3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p22022() { let _ = &mk::<Scale3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p22023() { let mut x = mk::<Scale3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p22024() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p22025() { let _ = mk::<Scale3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p22026() { let _ = mk::<Scale3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p22027() { let _ = &mk::<Scale3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p22028() { let _ = &mk::<Scale3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p22029() { let mut x = mk::<Scale3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p22030() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p22031() { let _ = mk::<Scale3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p22032() { let _ = mk::<Scale3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p22033() { let _ = &mk::<Scale3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p22034() { let _ = &mk::<Scale3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p22035() { let mut x = mk::<Scale3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p22036() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p22037() { let _ = mk::<Scale3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p22038() { let _ = mk::<Scale3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p22039() { let _ = &mk::<Scale3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p22040() { let _ = &mk::<Scale3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p22041() { let mut x = mk::<Scale3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p22042() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p22043() { let _ = mk::<Scale3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p22044() { let _ = mk::<Scale3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p22045() { let _: f64 = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22046() { let _: f32 = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22047() { let _ = mk::<Scale3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22048() { let _ = mk::<Scale3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22049() { let _ = &mk::<Scale3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22050() { let _ = &mk::<Scale3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22051() { let mut x = mk::<Scale3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22052() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22053() { let _ = mk::<Scale3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22054() { let _ = mk::<Scale3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22055() { let _ = &mk::<Scale3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22056() { let _ = &mk::<Scale3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22057() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22058() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22059() { let _ = mk::<Scale3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22060() { let _ = mk::<Scale3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22061() { let _ = &mk::<Scale3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22062() { let _ = &mk::<Scale3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22063() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22064() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22065() { let _ = mk::<Scale3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22066() { let _ = mk::<Scale3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22067() { let _ = &mk::<Scale3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22068() { let _ = &mk::<Scale3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22069() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22070() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22071() { let _ = mk::<Scale3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22072() { let _ = mk::<Scale3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22073() { let _ = &mk::<Scale3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22074() { let _ = &mk::<Scale3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22075() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22076() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22077() { let _ = mk::<Scale3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p22078() { let _ = mk::<Scale3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p22079() { let _: Euler<Radians<f64>> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22080() { let _: Euler<Radians<f32>> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22081() { let _ = mk::<Scale3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22082() { let _ = mk::<Scale3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22083() { let _ = &mk::<Scale3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22084() { let _ = &mk::<Scale3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22085() { let mut x = mk::<Scale3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22086() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22087() { let _ = mk::<Scale3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22088() { let _ = mk::<Scale3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22089() { let _ = &mk::<Scale3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22090() { let _ = &mk::<Scale3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22091() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22092() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22093() { let _ = mk::<Scale3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22094() { let _ = mk::<Scale3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22095() { let _ = &mk::<Scale3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22096() { let _ = &mk::<Scale3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22097() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22098() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22099() { let _ = mk::<Scale3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22100() { let _ = mk::<Scale3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22101() { let _ = &mk::<Scale3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22102() { let _ = &mk::<Scale3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22103() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22104() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22105() { let _ = mk::<Scale3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p22106() { let _ = mk::<Scale3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p22107() { let _: Unit<Vector3<f64>> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22108() { let _: Unit<Vector3<f32>> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22109() { let _ = mk::<Scale3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22110() { let _ = mk::<Scale3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22111() { let _ = &mk::<Scale3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22112() { let _ = &mk::<Scale3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22113() { let mut x = mk::<Scale3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22114() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22115() { let _ = mk::<Scale3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22116() { let _ = mk::<Scale3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22117() { let _ = &mk::<Scale3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22118() { let _ = &mk::<Scale3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22119() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22120() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22121() { let _ = mk::<Scale3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22122() { let _ = mk::<Scale3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22123() { let _ = &mk::<Scale3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22124() { let _ = &mk::<Scale3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22125() { let mut x = mk::<Scale3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22126() { let mut x = mk::<Scale3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22127() { let _ = mk::<Scale3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22128() { let _ = mk::<Scale3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22129() { let _ = &mk::<Scale3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22130() { let _ = &mk::<Scale3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22131() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22132() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22133() { let _ = mk::<Scale3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22134() { let _ = mk::<Scale3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22135() { let _ = &mk::<Scale3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22136() { let _ = &mk::<Scale3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22137() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22138() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22139() { let _ = mk::<Scale3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p22140() { let _ = mk::<Scale3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p22141() { let _: Unit<Quaternion<f64>> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22142() { let _: Unit<Quaternion<f32>> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22143() { let _ = mk::<Scale3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22144() { let _ = mk::<Scale3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22145() { let _ = &mk::<Scale3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22146() { let _ = &mk::<Scale3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22147() { let mut x = mk::<Scale3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22148() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22149() { let _ = mk::<Scale3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22150() { let _ = mk::<Scale3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22151() { let _ = &mk::<Scale3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22152() { let _ = &mk::<Scale3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22153() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22154() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22155() { let _ = mk::<Scale3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22156() { let _ = mk::<Scale3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22157() { let _ = &mk::<Scale3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22158() { let _ = &mk::<Scale3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22159() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22160() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22161() { let _ = mk::<Scale3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22162() { let _ = mk::<Scale3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22163() { let _ = &mk::<Scale3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22164() { let _ = &mk::<Scale3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22165() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22166() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22167() { let _ = mk::<Scale3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p22168() { let _ = mk::<Scale3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p22169() { let _: Rotation3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22170() { let _: Rotation3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22171() { let _ = mk::<Scale3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22172() { let _ = mk::<Scale3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22173() { let _ = &mk::<Scale3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22174() { let _ = &mk::<Scale3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22175() { let mut x = mk::<Scale3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22176() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22177() { let _ = mk::<Scale3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22178() { let _ = mk::<Scale3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22179() { let _ = &mk::<Scale3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22180() { let _ = &mk::<Scale3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22181() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22182() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22183() { let _ = mk::<Scale3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22184() { let _ = mk::<Scale3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22185() { let _ = &mk::<Scale3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22186() { let _ = &mk::<Scale3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22187() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22188() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22189() { let _ = mk::<Scale3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22190() { let _ = mk::<Scale3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22191() { let _ = &mk::<Scale3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22192() { let _ = &mk::<Scale3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22193() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22194() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22195() { let _ = mk::<Scale3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p22196() { let _ = mk::<Scale3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p22197() { let _: Translation3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22198() { let _: Translation3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22199() { let _ = mk::<Scale3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22200() { let _ = mk::<Scale3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22201() { let _ = &mk::<Scale3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22202() { let _ = &mk::<Scale3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22203() { let mut x = mk::<Scale3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22204() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22205() { let _ = mk::<Scale3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22206() { let _ = mk::<Scale3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22207() { let _ = &mk::<Scale3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22208() { let _ = &mk::<Scale3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22209() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22210() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22211() { let _: Scale3<f64> = mk::<Scale3<f64>>() * mk::<Scale3<f64>>(); } // accept operator-kinds
fn p22212() { let _ = mk::<Scale3<f64>>() * mk::<Scale3<f32>>(); } // reject operator-precision
fn p22213() { let _ = mk::<Scale3<f32>>() * mk::<Scale3<f64>>(); } // reject operator-precision
fn p22214() { let _: Scale3<f64> = mk::<Scale3<f64>>() * &mk::<Scale3<f64>>(); } // accept operator-kinds
fn p22215() { let _ = mk::<Scale3<f64>>() * &mk::<Scale3<f32>>(); } // reject operator-precision
fn p22216() { let _ = mk::<Scale3<f32>>() * &mk::<Scale3<f64>>(); } // reject operator-precision
fn p22217() { let _: Scale3<f64> = &mk::<Scale3<f64>>() * mk::<Scale3<f64>>(); } // accept operator-kinds
fn p22218() { let _ = &mk::<Scale3<f64>>() * mk::<Scale3<f32>>(); } // reject operator-precision
fn p22219() { let _ = &mk::<Scale3<f32>>() * mk::<Scale3<f64>>(); } // reject operator-precision
fn p22220() { let _: Scale3<f64> = &mk::<Scale3<f64>>() * &mk::<Scale3<f64>>(); } // accept operator-kinds
fn p22221() { let _ = &mk::<Scale3<f64>>() * &mk::<Scale3<f32>>(); } // reject operator-precision
fn p22222() { let _ = &mk::<Scale3<f32>>() * &mk::<Scale3<f64>>(); } // reject operator-precision
fn p22223() { let _ = mk::<Scale3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22224() { let _ = mk::<Scale3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22225() { let _ = &mk::<Scale3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22226() { let _ = &mk::<Scale3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22227() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22228() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22229() { let _ = mk::<Scale3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22230() { let _ = mk::<Scale3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22231() { let _ = &mk::<Scale3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22232() { let _ = &mk::<Scale3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22233() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22234() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22235() { let _ = mk::<Scale3<f64>>() == mk::<Scale3<f64>>(); } // accept equality-kinds
fn p22236() { let _: Scale3<f64> = mk::<Scale3<f64>>(); } // accept no-implicit-conversion
fn p22237() { let _: Scale3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22238() { let _ = mk::<Scale3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22239() { let _ = mk::<Scale3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22240() { let _ = &mk::<Scale3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22241() { let _ = &mk::<Scale3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22242() { let mut x = mk::<Scale3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22243() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22244() { let _ = mk::<Scale3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22245() { let _ = mk::<Scale3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22246() { let _ = &mk::<Scale3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22247() { let _ = &mk::<Scale3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22248() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22249() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22250() { let _ = mk::<Scale3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22251() { let _ = mk::<Scale3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22252() { let _ = &mk::<Scale3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22253() { let _ = &mk::<Scale3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22254() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22255() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22256() { let _ = mk::<Scale3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22257() { let _ = mk::<Scale3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22258() { let _ = &mk::<Scale3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22259() { let _ = &mk::<Scale3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p22260() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22261() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p22262() { let _ = mk::<Scale3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p22263() { let _ = mk::<Scale3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p22264() { let _: Shear3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22265() { let _: Shear3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22266() { let _ = mk::<Scale3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22267() { let _ = mk::<Scale3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22268() { let _ = &mk::<Scale3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22269() { let _ = &mk::<Scale3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22270() { let mut x = mk::<Scale3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22271() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22272() { let _ = mk::<Scale3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22273() { let _ = mk::<Scale3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22274() { let _ = &mk::<Scale3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22275() { let _ = &mk::<Scale3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22276() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22277() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22278() { let _ = mk::<Scale3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22279() { let _ = mk::<Scale3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22280() { let _ = &mk::<Scale3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22281() { let _ = &mk::<Scale3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22282() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22283() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22284() { let _ = mk::<Scale3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22285() { let _ = mk::<Scale3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22286() { let _ = &mk::<Scale3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22287() { let _ = &mk::<Scale3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p22288() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22289() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p22290() { let _ = mk::<Scale3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p22291() { let _ = mk::<Scale3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p22292() { let _: Reflection3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22293() { let _: Reflection3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22294() { let _ = mk::<Scale3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22295() { let _ = mk::<Scale3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22296() { let _ = &mk::<Scale3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22297() { let _ = &mk::<Scale3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22298() { let mut x = mk::<Scale3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22299() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22300() { let _ = mk::<Scale3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22301() { let _ = mk::<Scale3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22302() { let _ = &mk::<Scale3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22303() { let _ = &mk::<Scale3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22304() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22305() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22306() { let _ = mk::<Scale3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22307() { let _ = mk::<Scale3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22308() { let _ = &mk::<Scale3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22309() { let _ = &mk::<Scale3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22310() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22311() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22312() { let _ = mk::<Scale3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22313() { let _ = mk::<Scale3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22314() { let _ = &mk::<Scale3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22315() { let _ = &mk::<Scale3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p22316() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22317() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p22318() { let _ = mk::<Scale3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p22319() { let _ = mk::<Scale3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p22320() { let _: Isometry3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22321() { let _: Isometry3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22322() { let _ = mk::<Scale3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22323() { let _ = mk::<Scale3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22324() { let _ = &mk::<Scale3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22325() { let _ = &mk::<Scale3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22326() { let mut x = mk::<Scale3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22327() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22328() { let _ = mk::<Scale3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22329() { let _ = mk::<Scale3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22330() { let _ = &mk::<Scale3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22331() { let _ = &mk::<Scale3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22332() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22333() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22334() { let _ = mk::<Scale3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22335() { let _ = mk::<Scale3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22336() { let _ = &mk::<Scale3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22337() { let _ = &mk::<Scale3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22338() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22339() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22340() { let _ = mk::<Scale3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22341() { let _ = mk::<Scale3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22342() { let _ = &mk::<Scale3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22343() { let _ = &mk::<Scale3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p22344() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22345() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p22346() { let _ = mk::<Scale3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p22347() { let _ = mk::<Scale3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p22348() { let _: Similarity3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22349() { let _: Similarity3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22350() { let _ = mk::<Scale3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22351() { let _ = mk::<Scale3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22352() { let _ = &mk::<Scale3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22353() { let _ = &mk::<Scale3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22354() { let mut x = mk::<Scale3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22355() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22356() { let _ = mk::<Scale3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22357() { let _ = mk::<Scale3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22358() { let _ = &mk::<Scale3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22359() { let _ = &mk::<Scale3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22360() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22361() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22362() { let _ = mk::<Scale3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22363() { let _ = mk::<Scale3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22364() { let _ = &mk::<Scale3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22365() { let _ = &mk::<Scale3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22366() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22367() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22368() { let _ = mk::<Scale3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22369() { let _ = mk::<Scale3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22370() { let _ = &mk::<Scale3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22371() { let _ = &mk::<Scale3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p22372() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22373() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p22374() { let _ = mk::<Scale3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p22375() { let _ = mk::<Scale3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p22376() { let _: Transform3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22377() { let _: Transform3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22378() { let _ = mk::<Scale3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22379() { let _ = mk::<Scale3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22380() { let _ = &mk::<Scale3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22381() { let _ = &mk::<Scale3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22382() { let mut x = mk::<Scale3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22383() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22384() { let _ = mk::<Scale3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22385() { let _ = mk::<Scale3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22386() { let _ = &mk::<Scale3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22387() { let _ = &mk::<Scale3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22388() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22389() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22390() { let _ = mk::<Scale3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22391() { let _ = mk::<Scale3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22392() { let _ = &mk::<Scale3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22393() { let _ = &mk::<Scale3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22394() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22395() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22396() { let _ = mk::<Scale3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22397() { let _ = mk::<Scale3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22398() { let _ = &mk::<Scale3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22399() { let _ = &mk::<Scale3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p22400() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22401() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p22402() { let _ = mk::<Scale3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p22403() { let _ = mk::<Scale3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p22404() { let _: Perspective3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22405() { let _: Perspective3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22406() { let _ = mk::<Scale3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22407() { let _ = mk::<Scale3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22408() { let _ = &mk::<Scale3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22409() { let _ = &mk::<Scale3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22410() { let mut x = mk::<Scale3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22411() { let mut x = mk::<Scale3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22412() { let _ = mk::<Scale3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22413() { let _ = mk::<Scale3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22414() { let _ = &mk::<Scale3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22415() { let _ = &mk::<Scale3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22416() { let mut x = mk::<Scale3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22417() { let mut x = mk::<Scale3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22418() { let _ = mk::<Scale3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22419() { let _ = mk::<Scale3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22420() { let _ = &mk::<Scale3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22421() { let _ = &mk::<Scale3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22422() { let mut x = mk::<Scale3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22423() { let mut x = mk::<Scale3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22424() { let _ = mk::<Scale3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22425() { let _ = mk::<Scale3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22426() { let _ = &mk::<Scale3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22427() { let _ = &mk::<Scale3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p22428() { let mut x = mk::<Scale3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22429() { let mut x = mk::<Scale3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p22430() { let _ = mk::<Scale3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p22431() { let _ = mk::<Scale3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p22432() { let _: Orthographic3<f64> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22433() { let _: Orthographic3<f32> = mk::<Scale3<f64>>(); } // reject no-implicit-conversion
fn p22434() { let _ = !mk::<Scale3<f64>>(); } // reject negation
fn p22435() { let _ = !&mk::<Scale3<f64>>(); } // reject negation
fn p22436() { let _ = mk::<Shear3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22437() { let _ = mk::<Shear3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22438() { let _ = &mk::<Shear3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22439() { let _ = &mk::<Shear3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22440() { let mut x = mk::<Shear3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22441() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22442() { let _ = mk::<Shear3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22443() { let _ = mk::<Shear3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22444() { let _ = &mk::<Shear3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22445() { let _ = &mk::<Shear3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22446() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22447() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22448() { let _: Vector3<f64> = mk::<Shear3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p22449() { let _ = mk::<Shear3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p22450() { let _ = mk::<Shear3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p22451() { let _: Vector3<f64> = mk::<Shear3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p22452() { let _ = mk::<Shear3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p22453() { let _ = mk::<Shear3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p22454() { let _: Vector3<f64> = &mk::<Shear3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p22455() { let _ = &mk::<Shear3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p22456() { let _ = &mk::<Shear3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p22457() { let _: Vector3<f64> = &mk::<Shear3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p22458() { let _ = &mk::<Shear3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p22459() { let _ = &mk::<Shear3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p22460() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22461() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22462() { let _ = mk::<Shear3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22463() { let _ = mk::<Shear3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22464() { let _ = &mk::<Shear3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22465() { let _ = &mk::<Shear3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22466() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22467() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22468() { let _ = mk::<Shear3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22469() { let _ = mk::<Shear3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22470() { let _ = &mk::<Shear3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22471() { let _ = &mk::<Shear3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p22472() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22473() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p22474() { let _ = mk::<Shear3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p22475() { let _ = mk::<Shear3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p22476() { let _: Vector3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22477() { let _: Vector3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22478() { let _ = mk::<Shear3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22479() { let _ = mk::<Shear3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22480() { let _ = &mk::<Shear3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22481() { let _ = &mk::<Shear3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22482() { let mut x = mk::<Shear3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22483() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22484() { let _ = mk::<Shear3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22485() { let _ = mk::<Shear3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22486() { let _ = &mk::<Shear3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22487() { let _ = &mk::<Shear3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22488() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22489() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22490() { let _ = mk::<Shear3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22491() { let _ = mk::<Shear3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22492() { let _ = &mk::<Shear3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22493() { let _ = &mk::<Shear3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22494() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22495() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22496() { let _ = mk::<Shear3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22497() { let _ = mk::<Shear3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22498() { let _ = &mk::<Shear3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22499() { let _ = &mk::<Shear3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22500() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22501() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22502() { let _ = mk::<Shear3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22503() { let _ = mk::<Shear3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22504() { let _ = &mk::<Shear3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22505() { let _ = &mk::<Shear3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p22506() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22507() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p22508() { let _ = mk::<Shear3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p22509() { let _ = mk::<Shear3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p22510() { let _: Vector4<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22511() { let _: Vector4<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22512() { let _ = mk::<Shear3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p22513() { let _ = mk::<Shear3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22514() { let _ = &mk::<Shear3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p22515() { let _ = &mk::<Shear3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22516() { let mut x = mk::<Shear3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22517() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22518() { let _ = mk::<Shear3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p22519() { let _ = mk::<Shear3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22520() { let _ = &mk::<Shear3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p22521() { let _ = &mk::<Shear3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22522() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22523() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22524() { let _: Point3<f64> = mk::<Shear3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p22525() { let _ = mk::<Shear3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p22526() { let _ = mk::<Shear3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p22527() { let _: Point3<f64> = mk::<Shear3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p22528() { let _ = mk::<Shear3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p22529() { let _ = mk::<Shear3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p22530() { let _: Point3<f64> = &mk::<Shear3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p22531() { let _ = &mk::<Shear3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p22532() { let _ = &mk::<Shear3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p22533() { let _: Point3<f64> = &mk::<Shear3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p22534() { let _ = &mk::<Shear3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p22535() { let _ = &mk::<Shear3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p22536() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22537() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22538() { let _ = mk::<Shear3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p22539() { let _ = mk::<Shear3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22540() { let _ = &mk::<Shear3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p22541() { let _ = &mk::<Shear3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22542() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22543() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22544() { let _ = mk::<Shear3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p22545() { let _ = mk::<Shear3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22546() { let _ = &mk::<Shear3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p22547() { let _ = &mk::<Shear3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p22548() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22549() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p22550() { let _ = mk::<Shear3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p22551() { let _ = mk::<Shear3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p22552() { let _: Point3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22553() { let _: Point3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22554() { let _ = mk::<Shear3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22555() { let _ = mk::<Shear3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22556() { let _ = &mk::<Shear3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22557() { let _ = &mk::<Shear3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22558() { let mut x = mk::<Shear3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22559() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22560() { let _ = mk::<Shear3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22561() { let _ = mk::<Shear3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22562() { let _ = &mk::<Shear3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22563() { let _ = &mk::<Shear3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22564() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22565() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22566() { let _ = mk::<Shear3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22567() { let _ = mk::<Shear3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22568() { let _ = &mk::<Shear3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22569() { let _ = &mk::<Shear3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22570() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22571() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22572() { let _ = mk::<Shear3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22573() { let _ = mk::<Shear3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22574() { let _ = &mk::<Shear3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22575() { let _ = &mk::<Shear3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22576() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22577() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22578() { let _ = mk::<Shear3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22579() { let _ = mk::<Shear3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22580() { let _ = &mk::<Shear3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22581() { let _ = &mk::<Shear3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p22582() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22583() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p22584() { let _ = mk::<Shear3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p22585() { let _ = mk::<Shear3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p22586() { let _: Matrix3x3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22587() { let _: Matrix3x3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22588() { let _ = mk::<Shear3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22589() { let _ = mk::<Shear3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22590() { let _ = &mk::<Shear3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22591() { let _ = &mk::<Shear3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22592() { let mut x = mk::<Shear3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22593() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22594() { let _ = mk::<Shear3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22595() { let _ = mk::<Shear3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22596() { let _ = &mk::<Shear3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22597() { let _ = &mk::<Shear3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22598() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22599() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22600() { let _ = mk::<Shear3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22601() { let _ = mk::<Shear3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22602() { let _ = &mk::<Shear3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22603() { let _ = &mk::<Shear3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22604() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22605() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22606() { let _ = mk::<Shear3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22607() { let _ = mk::<Shear3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22608() { let _ = &mk::<Shear3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22609() { let _ = &mk::<Shear3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22610() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22611() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22612() { let _ = mk::<Shear3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22613() { let _ = mk::<Shear3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22614() { let _ = &mk::<Shear3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22615() { let _ = &mk::<Shear3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p22616() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22617() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p22618() { let _ = mk::<Shear3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p22619() { let _ = mk::<Shear3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p22620() { let _: Matrix4x4<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22621() { let _: Matrix4x4<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22622() { let _ = mk::<Shear3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22623() { let _ = mk::<Shear3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22624() { let _ = &mk::<Shear3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22625() { let _ = &mk::<Shear3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22626() { let mut x = mk::<Shear3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22627() { let mut x = mk::<Shear3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22628() { let _ = mk::<Shear3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22629() { let _ = mk::<Shear3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22630() { let _ = &mk::<Shear3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22631() { let _ = &mk::<Shear3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22632() { let mut x = mk::<Shear3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22633() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22634() { let _ = mk::<Shear3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22635() { let _ = mk::<Shear3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22636() { let _ = &mk::<Shear3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22637() { let _ = &mk::<Shear3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22638() { let mut x = mk::<Shear3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22639() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22640() { let _ = mk::<Shear3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22641() { let _ = mk::<Shear3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22642() { let _ = &mk::<Shear3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22643() { let _ = &mk::<Shear3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22644() { let mut x = mk::<Shear3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22645() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22646() { let _ = mk::<Shear3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22647() { let _ = mk::<Shear3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22648() { let _ = &mk::<Shear3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22649() { let _ = &mk::<Shear3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p22650() { let mut x = mk::<Shear3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22651() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p22652() { let _ = mk::<Shear3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p22653() { let _ = mk::<Shear3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p22654() { let _: RowVector3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22655() { let _: RowVector3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22656() { let _ = mk::<Shear3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22657() { let _ = mk::<Shear3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22658() { let _ = &mk::<Shear3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22659() { let _ = &mk::<Shear3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22660() { let mut x = mk::<Shear3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22661() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22662() { let _ = mk::<Shear3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22663() { let _ = mk::<Shear3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22664() { let _ = &mk::<Shear3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22665() { let _ = &mk::<Shear3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22666() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22667() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22668() { let _ = mk::<Shear3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22669() { let _ = mk::<Shear3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22670() { let _ = &mk::<Shear3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22671() { let _ = &mk::<Shear3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22672() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22673() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22674() { let _ = mk::<Shear3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22675() { let _ = mk::<Shear3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22676() { let _ = &mk::<Shear3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22677() { let _ = &mk::<Shear3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22678() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22679() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22680() { let _ = mk::<Shear3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22681() { let _ = mk::<Shear3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22682() { let _ = &mk::<Shear3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22683() { let _ = &mk::<Shear3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p22684() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22685() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p22686() { let _ = mk::<Shear3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p22687() { let _ = mk::<Shear3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p22688() { let _: Quaternion<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22689() { let _: Quaternion<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22690() { let _ = mk::<Shear3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p22691() { let _ = mk::<Shear3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22692() { let _ = &mk::<Shear3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p22693() { let _ = &mk::<Shear3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22694() { let mut x = mk::<Shear3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22695() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22696() { let _ = mk::<Shear3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p22697() { let _ = mk::<Shear3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22698() { let _ = &mk::<Shear3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p22699() { let _ = &mk::<Shear3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22700() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22701() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22702() { let _ = mk::<Shear3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p22703() { let _ = mk::<Shear3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22704() { let _ = &mk::<Shear3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p22705() { let _ = &mk::<Shear3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22706() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22707() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22708() { let _ = mk::<Shear3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p22709() { let _ = mk::<Shear3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22710() { let _ = &mk::<Shear3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p22711() { let _ = &mk::<Shear3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22712() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22713() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22714() { let _ = mk::<Shear3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p22715() { let _ = mk::<Shear3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22716() { let _ = &mk::<Shear3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p22717() { let _ = &mk::<Shear3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p22718() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22719() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p22720() { let _ = mk::<Shear3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p22721() { let _ = mk::<Shear3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p22722() { let _: Complex<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22723() { let _: Complex<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22724() { let _ = mk::<Shear3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p22725() { let _ = mk::<Shear3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22726() { let _ = &mk::<Shear3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p22727() { let _ = &mk::<Shear3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22728() { let mut x = mk::<Shear3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22729() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22730() { let _ = mk::<Shear3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p22731() { let _ = mk::<Shear3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22732() { let _ = &mk::<Shear3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p22733() { let _ = &mk::<Shear3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22734() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22735() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22736() { let _ = mk::<Shear3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p22737() { let _ = mk::<Shear3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22738() { let _ = &mk::<Shear3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p22739() { let _ = &mk::<Shear3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22740() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22741() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22742() { let _ = mk::<Shear3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p22743() { let _ = mk::<Shear3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22744() { let _ = &mk::<Shear3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p22745() { let _ = &mk::<Shear3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22746() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22747() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22748() { let _ = mk::<Shear3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p22749() { let _ = mk::<Shear3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22750() { let _ = &mk::<Shear3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p22751() { let _ = &mk::<Shear3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p22752() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22753() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p22754() { let _ = mk::<Shear3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p22755() { let _ = mk::<Shear3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p22756() { let _: Radians<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22757() { let _: Radians<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22758() { let _ = mk::<Shear3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22759() { let _ = mk::<Shear3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22760() { let _ = &mk::<Shear3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22761() { let _ = &mk::<Shear3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22762() { let mut x = mk::<Shear3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22763() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22764() { let _ = mk::<Shear3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22765() { let _ = mk::<Shear3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22766() { let _ = &mk::<Shear3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22767() { let _ = &mk::<Shear3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22768() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22769() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22770() { let _ = mk::<Shear3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22771() { let _ = mk::<Shear3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22772() { let _ = &mk::<Shear3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22773() { let _ = &mk::<Shear3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22774() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22775() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22776() { let _ = mk::<Shear3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22777() { let _ = mk::<Shear3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22778() { let _ = &mk::<Shear3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22779() { let _ = &mk::<Shear3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22780() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22781() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22782() { let _ = mk::<Shear3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22783() { let _ = mk::<Shear3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22784() { let _ = &mk::<Shear3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22785() { let _ = &mk::<Shear3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p22786() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22787() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p22788() { let _ = mk::<Shear3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p22789() { let _ = mk::<Shear3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p22790() { let _: Degrees<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22791() { let _: Degrees<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22792() { let _ = mk::<Shear3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p22793() { let _ = mk::<Shear3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p22794() { let _ = &mk::<Shear3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p22795() { let _ = &mk::<Shear3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p22796() { let mut x = mk::<Shear3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p22797() { let mut x = mk::<Shear3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p22798() { let _ = mk::<Shear3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p22799() { let _ = mk::<Shear3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p22800() { let _ = &mk::<Shear3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p22801() { let _ = &mk::<Shear3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p22802() { let mut x = mk::<Shear3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p22803() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p22804() { let _ = mk::<Shear3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p22805() { let _ = mk::<Shear3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p22806() { let _ = &mk::<Shear3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p22807() { let _ = &mk::<Shear3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p22808() { let mut x = mk::<Shear3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p22809() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p22810() { let _ = mk::<Shear3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p22811() { let _ = mk::<Shear3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p22812() { let _ = &mk::<Shear3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p22813() { let _ = &mk::<Shear3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p22814() { let mut x = mk::<Shear3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p22815() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p22816() { let _ = mk::<Shear3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p22817() { let _ = mk::<Shear3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p22818() { let _ = &mk::<Shear3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p22819() { let _ = &mk::<Shear3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p22820() { let mut x = mk::<Shear3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p22821() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p22822() { let _ = mk::<Shear3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p22823() { let _ = mk::<Shear3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p22824() { let _: f64 = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22825() { let _: f32 = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22826() { let _ = mk::<Shear3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22827() { let _ = mk::<Shear3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22828() { let _ = &mk::<Shear3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22829() { let _ = &mk::<Shear3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22830() { let mut x = mk::<Shear3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22831() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22832() { let _ = mk::<Shear3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22833() { let _ = mk::<Shear3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22834() { let _ = &mk::<Shear3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22835() { let _ = &mk::<Shear3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22836() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22837() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22838() { let _ = mk::<Shear3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22839() { let _ = mk::<Shear3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22840() { let _ = &mk::<Shear3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22841() { let _ = &mk::<Shear3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22842() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22843() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22844() { let _ = mk::<Shear3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22845() { let _ = mk::<Shear3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22846() { let _ = &mk::<Shear3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22847() { let _ = &mk::<Shear3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22848() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22849() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22850() { let _ = mk::<Shear3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22851() { let _ = mk::<Shear3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22852() { let _ = &mk::<Shear3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22853() { let _ = &mk::<Shear3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p22854() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22855() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p22856() { let _ = mk::<Shear3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p22857() { let _ = mk::<Shear3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p22858() { let _: Euler<Radians<f64>> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22859() { let _: Euler<Radians<f32>> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22860() { let _ = mk::<Shear3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22861() { let _ = mk::<Shear3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22862() { let _ = &mk::<Shear3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22863() { let _ = &mk::<Shear3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22864() { let mut x = mk::<Shear3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22865() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22866() { let _ = mk::<Shear3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22867() { let _ = mk::<Shear3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22868() { let _ = &mk::<Shear3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22869() { let _ = &mk::<Shear3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22870() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22871() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22872() { let _ = mk::<Shear3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22873() { let _ = mk::<Shear3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22874() { let _ = &mk::<Shear3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22875() { let _ = &mk::<Shear3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22876() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22877() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22878() { let _ = mk::<Shear3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22879() { let _ = mk::<Shear3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22880() { let _ = &mk::<Shear3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22881() { let _ = &mk::<Shear3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p22882() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22883() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p22884() { let _ = mk::<Shear3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p22885() { let _ = mk::<Shear3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p22886() { let _: Unit<Vector3<f64>> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22887() { let _: Unit<Vector3<f32>> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22888() { let _ = mk::<Shear3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22889() { let _ = mk::<Shear3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22890() { let _ = &mk::<Shear3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22891() { let _ = &mk::<Shear3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22892() { let mut x = mk::<Shear3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22893() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22894() { let _ = mk::<Shear3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22895() { let _ = mk::<Shear3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22896() { let _ = &mk::<Shear3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22897() { let _ = &mk::<Shear3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22898() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22899() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22900() { let _ = mk::<Shear3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22901() { let _ = mk::<Shear3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22902() { let _ = &mk::<Shear3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22903() { let _ = &mk::<Shear3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22904() { let mut x = mk::<Shear3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22905() { let mut x = mk::<Shear3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22906() { let _ = mk::<Shear3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22907() { let _ = mk::<Shear3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22908() { let _ = &mk::<Shear3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22909() { let _ = &mk::<Shear3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22910() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22911() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22912() { let _ = mk::<Shear3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22913() { let _ = mk::<Shear3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22914() { let _ = &mk::<Shear3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22915() { let _ = &mk::<Shear3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p22916() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22917() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p22918() { let _ = mk::<Shear3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p22919() { let _ = mk::<Shear3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p22920() { let _: Unit<Quaternion<f64>> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22921() { let _: Unit<Quaternion<f32>> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22922() { let _ = mk::<Shear3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22923() { let _ = mk::<Shear3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22924() { let _ = &mk::<Shear3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22925() { let _ = &mk::<Shear3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22926() { let mut x = mk::<Shear3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22927() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22928() { let _ = mk::<Shear3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22929() { let _ = mk::<Shear3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22930() { let _ = &mk::<Shear3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22931() { let _ = &mk::<Shear3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22932() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22933() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22934() { let _ = mk::<Shear3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22935() { let _ = mk::<Shear3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22936() { let _ = &mk::<Shear3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22937() { let _ = &mk::<Shear3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22938() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22939() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22940() { let _ = mk::<Shear3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22941() { let _ = mk::<Shear3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22942() { let _ = &mk::<Shear3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22943() { let _ = &mk::<Shear3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p22944() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22945() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p22946() { let _ = mk::<Shear3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p22947() { let _ = mk::<Shear3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p22948() { let _: Rotation3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22949() { let _: Rotation3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22950() { let _ = mk::<Shear3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22951() { let _ = mk::<Shear3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22952() { let _ = &mk::<Shear3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22953() { let _ = &mk::<Shear3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22954() { let mut x = mk::<Shear3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22955() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22956() { let _ = mk::<Shear3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22957() { let _ = mk::<Shear3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22958() { let _ = &mk::<Shear3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22959() { let _ = &mk::<Shear3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22960() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22961() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22962() { let _ = mk::<Shear3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22963() { let _ = mk::<Shear3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22964() { let _ = &mk::<Shear3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22965() { let _ = &mk::<Shear3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22966() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22967() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22968() { let _ = mk::<Shear3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22969() { let _ = mk::<Shear3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22970() { let _ = &mk::<Shear3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22971() { let _ = &mk::<Shear3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p22972() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22973() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p22974() { let _ = mk::<Shear3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p22975() { let _ = mk::<Shear3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p22976() { let _: Translation3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22977() { let _: Translation3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p22978() { let _ = mk::<Shear3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22979() { let _ = mk::<Shear3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22980() { let _ = &mk::<Shear3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22981() { let _ = &mk::<Shear3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22982() { let mut x = mk::<Shear3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22983() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22984() { let _ = mk::<Shear3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22985() { let _ = mk::<Shear3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22986() { let _ = &mk::<Shear3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22987() { let _ = &mk::<Shear3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22988() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22989() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22990() { let _ = mk::<Shear3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22991() { let _ = mk::<Shear3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22992() { let _ = &mk::<Shear3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22993() { let _ = &mk::<Shear3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22994() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22995() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p22996() { let _ = mk::<Shear3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22997() { let _ = mk::<Shear3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22998() { let _ = &mk::<Shear3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p22999() { let _ = &mk::<Shear3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23000() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23001() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23002() { let _ = mk::<Shear3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p23003() { let _ = mk::<Shear3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p23004() { let _: Scale3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23005() { let _: Scale3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23006() { let _ = mk::<Shear3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23007() { let _ = mk::<Shear3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23008() { let _ = &mk::<Shear3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23009() { let _ = &mk::<Shear3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23010() { let mut x = mk::<Shear3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23011() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23012() { let _ = mk::<Shear3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23013() { let _ = mk::<Shear3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23014() { let _ = &mk::<Shear3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23015() { let _ = &mk::<Shear3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23016() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23017() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23018() { let _: Transform3<f64> = mk::<Shear3<f64>>() * mk::<Shear3<f64>>(); } // accept operator-kinds
fn p23019() { let _ = mk::<Shear3<f64>>() * mk::<Shear3<f32>>(); } // reject operator-precision
fn p23020() { let _ = mk::<Shear3<f32>>() * mk::<Shear3<f64>>(); } // reject operator-precision
fn p23021() { let _: Transform3<f64> = mk::<Shear3<f64>>() * &mk::<Shear3<f64>>(); } // accept operator-kinds
fn p23022() { let _ = mk::<Shear3<f64>>() * &mk::<Shear3<f32>>(); } // reject operator-precision
fn p23023() { let _ = mk::<Shear3<f32>>() * &mk::<Shear3<f64>>(); } // reject operator-precision
fn p23024() { let _: Transform3<f64> = &mk::<Shear3<f64>>() * mk::<Shear3<f64>>(); } // accept operator-kinds
fn p23025() { let _ = &mk::<Shear3<f64>>() * mk::<Shear3<f32>>(); } // reject operator-precision
fn p23026() { let _ = &mk::<Shear3<f32>>() * mk::<Shear3<f64>>(); } // reject operator-precision
fn p23027() { let _: Transform3<f64> = &mk::<Shear3<f64>>() * &mk::<Shear3<f64>>(); } // accept operator-kinds
fn p23028() { let _ = &mk::<Shear3<f64>>() * &mk::<Shear3<f32>>(); } // reject operator-precision
fn p23029() { let _ = &mk::<Shear3<f32>>() * &mk::<Shear3<f64>>(); } // reject operator-precision
fn p23030() { let _ = mk::<Shear3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23031() { let _ = mk::<Shear3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23032() { let _ = &mk::<Shear3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23033() { let _ = &mk::<Shear3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23034() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23035() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23036() { let _ = mk::<Shear3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23037() { let _ = mk::<Shear3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23038() { let _ = &mk::<Shear3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23039() { let _ = &mk::<Shear3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23040() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23041() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23042() { let _ = mk::<Shear3<f64>>() == mk::<Shear3<f64>>(); } // accept equality-kinds
fn p23043() { let _: Shear3<f64> = mk::<Shear3<f64>>(); } // accept no-implicit-conversion
fn p23044() { let _: Shear3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23045() { let _ = mk::<Shear3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23046() { let _ = mk::<Shear3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23047() { let _ = &mk::<Shear3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23048() { let _ = &mk::<Shear3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23049() { let mut x = mk::<Shear3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23050() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23051() { let _ = mk::<Shear3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23052() { let _ = mk::<Shear3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23053() { let _ = &mk::<Shear3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23054() { let _ = &mk::<Shear3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23055() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23056() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23057() { let _ = mk::<Shear3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23058() { let _ = mk::<Shear3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23059() { let _ = &mk::<Shear3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23060() { let _ = &mk::<Shear3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23061() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23062() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23063() { let _ = mk::<Shear3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23064() { let _ = mk::<Shear3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23065() { let _ = &mk::<Shear3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23066() { let _ = &mk::<Shear3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23067() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23068() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23069() { let _ = mk::<Shear3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p23070() { let _ = mk::<Shear3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p23071() { let _: Reflection3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23072() { let _: Reflection3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23073() { let _ = mk::<Shear3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23074() { let _ = mk::<Shear3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23075() { let _ = &mk::<Shear3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23076() { let _ = &mk::<Shear3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23077() { let mut x = mk::<Shear3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23078() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23079() { let _ = mk::<Shear3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23080() { let _ = mk::<Shear3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23081() { let _ = &mk::<Shear3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23082() { let _ = &mk::<Shear3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23083() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23084() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23085() { let _ = mk::<Shear3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23086() { let _ = mk::<Shear3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23087() { let _ = &mk::<Shear3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23088() { let _ = &mk::<Shear3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23089() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23090() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23091() { let _ = mk::<Shear3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23092() { let _ = mk::<Shear3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23093() { let _ = &mk::<Shear3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23094() { let _ = &mk::<Shear3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23095() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23096() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23097() { let _ = mk::<Shear3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p23098() { let _ = mk::<Shear3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p23099() { let _: Isometry3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23100() { let _: Isometry3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23101() { let _ = mk::<Shear3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23102() { let _ = mk::<Shear3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23103() { let _ = &mk::<Shear3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23104() { let _ = &mk::<Shear3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23105() { let mut x = mk::<Shear3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23106() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23107() { let _ = mk::<Shear3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23108() { let _ = mk::<Shear3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23109() { let _ = &mk::<Shear3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23110() { let _ = &mk::<Shear3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23111() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23112() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23113() { let _ = mk::<Shear3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23114() { let _ = mk::<Shear3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23115() { let _ = &mk::<Shear3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23116() { let _ = &mk::<Shear3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23117() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23118() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23119() { let _ = mk::<Shear3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23120() { let _ = mk::<Shear3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23121() { let _ = &mk::<Shear3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23122() { let _ = &mk::<Shear3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23123() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23124() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23125() { let _ = mk::<Shear3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p23126() { let _ = mk::<Shear3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p23127() { let _: Similarity3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23128() { let _: Similarity3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23129() { let _ = mk::<Shear3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23130() { let _ = mk::<Shear3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23131() { let _ = &mk::<Shear3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23132() { let _ = &mk::<Shear3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23133() { let mut x = mk::<Shear3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23134() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23135() { let _ = mk::<Shear3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23136() { let _ = mk::<Shear3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23137() { let _ = &mk::<Shear3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23138() { let _ = &mk::<Shear3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23139() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23140() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23141() { let _ = mk::<Shear3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23142() { let _ = mk::<Shear3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23143() { let _ = &mk::<Shear3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23144() { let _ = &mk::<Shear3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23145() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23146() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23147() { let _ = mk::<Shear3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23148() { let _ = mk::<Shear3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23149() { let _ = &mk::<Shear3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23150() { let _ = &mk::<Shear3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23151() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23152() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23153() { let _ = mk::<Shear3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p23154() { let _ = mk::<Shear3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p23155() { let _: Transform3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23156() { let _: Transform3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23157() { let _ = mk::<Shear3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23158() { let _ = mk::<Shear3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23159() { let _ = &mk::<Shear3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23160() { let _ = &mk::<Shear3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23161() { let mut x = mk::<Shear3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23162() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23163() { let _ = mk::<Shear3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23164() { let _ = mk::<Shear3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23165() { let _ = &mk::<Shear3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23166() { let _ = &mk::<Shear3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23167() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23168() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23169() { let _ = mk::<Shear3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23170() { let _ = mk::<Shear3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23171() { let _ = &mk::<Shear3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23172() { let _ = &mk::<Shear3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23173() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23174() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23175() { let _ = mk::<Shear3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23176() { let _ = mk::<Shear3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23177() { let _ = &mk::<Shear3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23178() { let _ = &mk::<Shear3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23179() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23180() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23181() { let _ = mk::<Shear3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p23182() { let _ = mk::<Shear3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p23183() { let _: Perspective3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23184() { let _: Perspective3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23185() { let _ = mk::<Shear3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23186() { let _ = mk::<Shear3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23187() { let _ = &mk::<Shear3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23188() { let _ = &mk::<Shear3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23189() { let mut x = mk::<Shear3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23190() { let mut x = mk::<Shear3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23191() { let _ = mk::<Shear3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23192() { let _ = mk::<Shear3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23193() { let _ = &mk::<Shear3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23194() { let _ = &mk::<Shear3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23195() { let mut x = mk::<Shear3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23196() { let mut x = mk::<Shear3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23197() { let _ = mk::<Shear3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23198() { let _ = mk::<Shear3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23199() { let _ = &mk::<Shear3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23200() { let _ = &mk::<Shear3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23201() { let mut x = mk::<Shear3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23202() { let mut x = mk::<Shear3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23203() { let _ = mk::<Shear3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23204() { let _ = mk::<Shear3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23205() { let _ = &mk::<Shear3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23206() { let _ = &mk::<Shear3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23207() { let mut x = mk::<Shear3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23208() { let mut x = mk::<Shear3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23209() { let _ = mk::<Shear3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p23210() { let _ = mk::<Shear3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p23211() { let _: Orthographic3<f64> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23212() { let _: Orthographic3<f32> = mk::<Shear3<f64>>(); } // reject no-implicit-conversion
fn p23213() { let _ = !mk::<Shear3<f64>>(); } // reject negation
fn p23214() { let _ = !&mk::<Shear3<f64>>(); } // reject negation
fn p23215() { let _ = mk::<Reflection3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23216() { let _ = mk::<Reflection3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23217() { let _ = &mk::<Reflection3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23218() { let _ = &mk::<Reflection3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23219() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23220() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23221() { let _ = mk::<Reflection3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23222() { let _ = mk::<Reflection3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23223() { let _ = &mk::<Reflection3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23224() { let _ = &mk::<Reflection3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23225() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23226() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23227() { let _: Vector3<f64> = mk::<Reflection3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p23228() { let _ = mk::<Reflection3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p23229() { let _ = mk::<Reflection3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p23230() { let _: Vector3<f64> = mk::<Reflection3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p23231() { let _ = mk::<Reflection3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p23232() { let _ = mk::<Reflection3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p23233() { let _: Vector3<f64> = &mk::<Reflection3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p23234() { let _ = &mk::<Reflection3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p23235() { let _ = &mk::<Reflection3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p23236() { let _: Vector3<f64> = &mk::<Reflection3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p23237() { let _ = &mk::<Reflection3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p23238() { let _ = &mk::<Reflection3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p23239() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23240() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23241() { let _ = mk::<Reflection3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23242() { let _ = mk::<Reflection3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23243() { let _ = &mk::<Reflection3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23244() { let _ = &mk::<Reflection3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23245() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23246() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23247() { let _ = mk::<Reflection3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23248() { let _ = mk::<Reflection3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23249() { let _ = &mk::<Reflection3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23250() { let _ = &mk::<Reflection3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23251() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23252() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23253() { let _ = mk::<Reflection3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p23254() { let _ = mk::<Reflection3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p23255() { let _: Vector3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23256() { let _: Vector3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23257() { let _ = mk::<Reflection3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23258() { let _ = mk::<Reflection3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23259() { let _ = &mk::<Reflection3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23260() { let _ = &mk::<Reflection3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23261() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23262() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23263() { let _ = mk::<Reflection3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23264() { let _ = mk::<Reflection3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23265() { let _ = &mk::<Reflection3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23266() { let _ = &mk::<Reflection3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23267() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23268() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23269() { let _ = mk::<Reflection3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23270() { let _ = mk::<Reflection3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23271() { let _ = &mk::<Reflection3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23272() { let _ = &mk::<Reflection3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23273() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23274() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23275() { let _ = mk::<Reflection3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23276() { let _ = mk::<Reflection3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23277() { let _ = &mk::<Reflection3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23278() { let _ = &mk::<Reflection3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23279() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23280() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23281() { let _ = mk::<Reflection3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23282() { let _ = mk::<Reflection3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23283() { let _ = &mk::<Reflection3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23284() { let _ = &mk::<Reflection3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p23285() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23286() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p23287() { let _ = mk::<Reflection3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p23288() { let _ = mk::<Reflection3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p23289() { let _: Vector4<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23290() { let _: Vector4<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23291() { let _ = mk::<Reflection3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p23292() { let _ = mk::<Reflection3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23293() { let _ = &mk::<Reflection3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p23294() { let _ = &mk::<Reflection3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23295() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23296() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23297() { let _ = mk::<Reflection3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p23298() { let _ = mk::<Reflection3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23299() { let _ = &mk::<Reflection3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p23300() { let _ = &mk::<Reflection3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23301() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23302() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23303() { let _: Point3<f64> = mk::<Reflection3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p23304() { let _ = mk::<Reflection3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p23305() { let _ = mk::<Reflection3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p23306() { let _: Point3<f64> = mk::<Reflection3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p23307() { let _ = mk::<Reflection3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p23308() { let _ = mk::<Reflection3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p23309() { let _: Point3<f64> = &mk::<Reflection3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p23310() { let _ = &mk::<Reflection3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p23311() { let _ = &mk::<Reflection3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p23312() { let _: Point3<f64> = &mk::<Reflection3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p23313() { let _ = &mk::<Reflection3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p23314() { let _ = &mk::<Reflection3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p23315() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23316() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23317() { let _ = mk::<Reflection3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p23318() { let _ = mk::<Reflection3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23319() { let _ = &mk::<Reflection3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p23320() { let _ = &mk::<Reflection3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23321() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23322() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23323() { let _ = mk::<Reflection3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p23324() { let _ = mk::<Reflection3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23325() { let _ = &mk::<Reflection3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p23326() { let _ = &mk::<Reflection3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p23327() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23328() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p23329() { let _ = mk::<Reflection3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p23330() { let _ = mk::<Reflection3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p23331() { let _: Point3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23332() { let _: Point3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23333() { let _ = mk::<Reflection3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23334() { let _ = mk::<Reflection3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23335() { let _ = &mk::<Reflection3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23336() { let _ = &mk::<Reflection3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23337() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23338() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23339() { let _ = mk::<Reflection3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23340() { let _ = mk::<Reflection3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23341() { let _ = &mk::<Reflection3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23342() { let _ = &mk::<Reflection3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23343() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23344() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23345() { let _ = mk::<Reflection3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23346() { let _ = mk::<Reflection3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23347() { let _ = &mk::<Reflection3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23348() { let _ = &mk::<Reflection3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23349() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23350() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23351() { let _ = mk::<Reflection3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23352() { let _ = mk::<Reflection3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23353() { let _ = &mk::<Reflection3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23354() { let _ = &mk::<Reflection3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23355() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23356() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23357() { let _ = mk::<Reflection3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23358() { let _ = mk::<Reflection3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23359() { let _ = &mk::<Reflection3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23360() { let _ = &mk::<Reflection3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p23361() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23362() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p23363() { let _ = mk::<Reflection3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p23364() { let _ = mk::<Reflection3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p23365() { let _: Matrix3x3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23366() { let _: Matrix3x3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23367() { let _ = mk::<Reflection3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23368() { let _ = mk::<Reflection3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23369() { let _ = &mk::<Reflection3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23370() { let _ = &mk::<Reflection3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23371() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23372() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23373() { let _ = mk::<Reflection3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23374() { let _ = mk::<Reflection3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23375() { let _ = &mk::<Reflection3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23376() { let _ = &mk::<Reflection3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23377() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23378() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23379() { let _ = mk::<Reflection3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23380() { let _ = mk::<Reflection3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23381() { let _ = &mk::<Reflection3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23382() { let _ = &mk::<Reflection3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23383() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23384() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23385() { let _ = mk::<Reflection3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23386() { let _ = mk::<Reflection3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23387() { let _ = &mk::<Reflection3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23388() { let _ = &mk::<Reflection3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23389() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23390() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23391() { let _ = mk::<Reflection3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23392() { let _ = mk::<Reflection3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23393() { let _ = &mk::<Reflection3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23394() { let _ = &mk::<Reflection3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p23395() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23396() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p23397() { let _ = mk::<Reflection3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p23398() { let _ = mk::<Reflection3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p23399() { let _: Matrix4x4<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23400() { let _: Matrix4x4<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23401() { let _ = mk::<Reflection3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23402() { let _ = mk::<Reflection3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23403() { let _ = &mk::<Reflection3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23404() { let _ = &mk::<Reflection3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23405() { let mut x = mk::<Reflection3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23406() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23407() { let _ = mk::<Reflection3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23408() { let _ = mk::<Reflection3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23409() { let _ = &mk::<Reflection3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23410() { let _ = &mk::<Reflection3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23411() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23412() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23413() { let _ = mk::<Reflection3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23414() { let _ = mk::<Reflection3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23415() { let _ = &mk::<Reflection3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23416() { let _ = &mk::<Reflection3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23417() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23418() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23419() { let _ = mk::<Reflection3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23420() { let _ = mk::<Reflection3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23421() { let _ = &mk::<Reflection3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23422() { let _ = &mk::<Reflection3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23423() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23424() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23425() { let _ = mk::<Reflection3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23426() { let _ = mk::<Reflection3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23427() { let _ = &mk::<Reflection3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23428() { let _ = &mk::<Reflection3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p23429() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23430() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p23431() { let _ = mk::<Reflection3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p23432() { let _ = mk::<Reflection3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p23433() { let _: RowVector3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23434() { let _: RowVector3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23435() { let _ = mk::<Reflection3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23436() { let _ = mk::<Reflection3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23437() { let _ = &mk::<Reflection3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23438() { let _ = &mk::<Reflection3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23439() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23440() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23441() { let _ = mk::<Reflection3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23442() { let _ = mk::<Reflection3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23443() { let _ = &mk::<Reflection3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23444() { let _ = &mk::<Reflection3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23445() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23446() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23447() { let _ = mk::<Reflection3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23448() { let _ = mk::<Reflection3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23449() { let _ = &mk::<Reflection3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23450() { let _ = &mk::<Reflection3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23451() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23452() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23453() { let _ = mk::<Reflection3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23454() { let _ = mk::<Reflection3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23455() { let _ = &mk::<Reflection3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23456() { let _ = &mk::<Reflection3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23457() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23458() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23459() { let _ = mk::<Reflection3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23460() { let _ = mk::<Reflection3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23461() { let _ = &mk::<Reflection3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23462() { let _ = &mk::<Reflection3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p23463() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23464() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p23465() { let _ = mk::<Reflection3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p23466() { let _ = mk::<Reflection3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p23467() { let _: Quaternion<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23468() { let _: Quaternion<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23469() { let _ = mk::<Reflection3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p23470() { let _ = mk::<Reflection3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23471() { let _ = &mk::<Reflection3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p23472() { let _ = &mk::<Reflection3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23473() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23474() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23475() { let _ = mk::<Reflection3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p23476() { let _ = mk::<Reflection3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23477() { let _ = &mk::<Reflection3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p23478() { let _ = &mk::<Reflection3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23479() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23480() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23481() { let _ = mk::<Reflection3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p23482() { let _ = mk::<Reflection3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23483() { let _ = &mk::<Reflection3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p23484() { let _ = &mk::<Reflection3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23485() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23486() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23487() { let _ = mk::<Reflection3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p23488() { let _ = mk::<Reflection3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23489() { let _ = &mk::<Reflection3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p23490() { let _ = &mk::<Reflection3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23491() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23492() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23493() { let _ = mk::<Reflection3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p23494() { let _ = mk::<Reflection3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23495() { let _ = &mk::<Reflection3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p23496() { let _ = &mk::<Reflection3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p23497() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23498() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p23499() { let _ = mk::<Reflection3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p23500() { let _ = mk::<Reflection3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p23501() { let _: Complex<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23502() { let _: Complex<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23503() { let _ = mk::<Reflection3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p23504() { let _ = mk::<Reflection3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23505() { let _ = &mk::<Reflection3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p23506() { let _ = &mk::<Reflection3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23507() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23508() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23509() { let _ = mk::<Reflection3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p23510() { let _ = mk::<Reflection3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23511() { let _ = &mk::<Reflection3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p23512() { let _ = &mk::<Reflection3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23513() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23514() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23515() { let _ = mk::<Reflection3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p23516() { let _ = mk::<Reflection3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23517() { let _ = &mk::<Reflection3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p23518() { let _ = &mk::<Reflection3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23519() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23520() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23521() { let _ = mk::<Reflection3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p23522() { let _ = mk::<Reflection3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23523() { let _ = &mk::<Reflection3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p23524() { let _ = &mk::<Reflection3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23525() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23526() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23527() { let _ = mk::<Reflection3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p23528() { let _ = mk::<Reflection3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23529() { let _ = &mk::<Reflection3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p23530() { let _ = &mk::<Reflection3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p23531() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23532() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p23533() { let _ = mk::<Reflection3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p23534() { let _ = mk::<Reflection3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p23535() { let _: Radians<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23536() { let _: Radians<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23537() { let _ = mk::<Reflection3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23538() { let _ = mk::<Reflection3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23539() { let _ = &mk::<Reflection3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23540() { let _ = &mk::<Reflection3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23541() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23542() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23543() { let _ = mk::<Reflection3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23544() { let _ = mk::<Reflection3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23545() { let _ = &mk::<Reflection3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23546() { let _ = &mk::<Reflection3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23547() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23548() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23549() { let _ = mk::<Reflection3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23550() { let _ = mk::<Reflection3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23551() { let _ = &mk::<Reflection3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23552() { let _ = &mk::<Reflection3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23553() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23554() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23555() { let _ = mk::<Reflection3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23556() { let _ = mk::<Reflection3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23557() { let _ = &mk::<Reflection3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23558() { let _ = &mk::<Reflection3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23559() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23560() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23561() { let _ = mk::<Reflection3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23562() { let _ = mk::<Reflection3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23563() { let _ = &mk::<Reflection3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23564() { let _ = &mk::<Reflection3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p23565() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23566() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p23567() { let _ = mk::<Reflection3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p23568() { let _ = mk::<Reflection3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p23569() { let _: Degrees<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23570() { let _: Degrees<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23571() { let _ = mk::<Reflection3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p23572() { let _ = mk::<Reflection3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p23573() { let _ = &mk::<Reflection3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p23574() { let _ = &mk::<Reflection3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p23575() { let mut x = mk::<Reflection3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p23576() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p23577() { let _ = mk::<Reflection3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p23578() { let _ = mk::<Reflection3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p23579() { let _ = &mk::<Reflection3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p23580() { let _ = &mk::<Reflection3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p23581() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p23582() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p23583() { let _ = mk::<Reflection3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p23584() { let _ = mk::<Reflection3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p23585() { let _ = &mk::<Reflection3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p23586() { let _ = &mk::<Reflection3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p23587() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p23588() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p23589() { let _ = mk::<Reflection3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p23590() { let _ = mk::<Reflection3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p23591() { let _ = &mk::<Reflection3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p23592() { let _ = &mk::<Reflection3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p23593() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p23594() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p23595() { let _ = mk::<Reflection3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p23596() { let _ = mk::<Reflection3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p23597() { let _ = &mk::<Reflection3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p23598() { let _ = &mk::<Reflection3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p23599() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p23600() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p23601() { let _ = mk::<Reflection3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p23602() { let _ = mk::<Reflection3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p23603() { let _: f64 = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23604() { let _: f32 = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23605() { let _ = mk::<Reflection3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23606() { let _ = mk::<Reflection3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23607() { let _ = &mk::<Reflection3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23608() { let _ = &mk::<Reflection3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23609() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23610() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23611() { let _ = mk::<Reflection3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23612() { let _ = mk::<Reflection3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23613() { let _ = &mk::<Reflection3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23614() { let _ = &mk::<Reflection3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23615() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23616() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23617() { let _ = mk::<Reflection3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23618() { let _ = mk::<Reflection3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23619() { let _ = &mk::<Reflection3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23620() { let _ = &mk::<Reflection3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23621() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23622() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23623() { let _ = mk::<Reflection3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23624() { let _ = mk::<Reflection3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23625() { let _ = &mk::<Reflection3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23626() { let _ = &mk::<Reflection3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23627() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23628() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23629() { let _ = mk::<Reflection3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23630() { let _ = mk::<Reflection3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23631() { let _ = &mk::<Reflection3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23632() { let _ = &mk::<Reflection3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p23633() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23634() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p23635() { let _ = mk::<Reflection3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p23636() { let _ = mk::<Reflection3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p23637() { let _: Euler<Radians<f64>> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23638() { let _: Euler<Radians<f32>> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23639() { let _ = mk::<Reflection3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23640() { let _ = mk::<Reflection3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23641() { let _ = &mk::<Reflection3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23642() { let _ = &mk::<Reflection3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23643() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23644() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23645() { let _ = mk::<Reflection3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23646() { let _ = mk::<Reflection3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23647() { let _ = &mk::<Reflection3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23648() { let _ = &mk::<Reflection3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23649() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23650() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23651() { let _ = mk::<Reflection3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23652() { let _ = mk::<Reflection3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23653() { let _ = &mk::<Reflection3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23654() { let _ = &mk::<Reflection3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23655() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23656() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23657() { let _ = mk::<Reflection3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23658() { let _ = mk::<Reflection3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23659() { let _ = &mk::<Reflection3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23660() { let _ = &mk::<Reflection3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p23661() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23662() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p23663() { let _ = mk::<Reflection3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p23664() { let _ = mk::<Reflection3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p23665() { let _: Unit<Vector3<f64>> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23666() { let _: Unit<Vector3<f32>> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23667() { let _ = mk::<Reflection3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23668() { let _ = mk::<Reflection3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23669() { let _ = &mk::<Reflection3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23670() { let _ = &mk::<Reflection3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23671() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23672() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23673() { let _ = mk::<Reflection3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23674() { let _ = mk::<Reflection3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23675() { let _ = &mk::<Reflection3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23676() { let _ = &mk::<Reflection3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23677() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23678() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23679() { let _ = mk::<Reflection3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23680() { let _ = mk::<Reflection3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23681() { let _ = &mk::<Reflection3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23682() { let _ = &mk::<Reflection3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23683() { let mut x = mk::<Reflection3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23684() { let mut x = mk::<Reflection3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23685() { let _ = mk::<Reflection3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23686() { let _ = mk::<Reflection3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23687() { let _ = &mk::<Reflection3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23688() { let _ = &mk::<Reflection3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23689() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23690() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23691() { let _ = mk::<Reflection3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23692() { let _ = mk::<Reflection3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23693() { let _ = &mk::<Reflection3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23694() { let _ = &mk::<Reflection3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p23695() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23696() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p23697() { let _ = mk::<Reflection3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p23698() { let _ = mk::<Reflection3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p23699() { let _: Unit<Quaternion<f64>> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23700() { let _: Unit<Quaternion<f32>> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23701() { let _ = mk::<Reflection3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23702() { let _ = mk::<Reflection3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23703() { let _ = &mk::<Reflection3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23704() { let _ = &mk::<Reflection3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23705() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23706() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23707() { let _ = mk::<Reflection3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23708() { let _ = mk::<Reflection3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23709() { let _ = &mk::<Reflection3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23710() { let _ = &mk::<Reflection3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23711() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23712() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23713() { let _ = mk::<Reflection3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23714() { let _ = mk::<Reflection3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23715() { let _ = &mk::<Reflection3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23716() { let _ = &mk::<Reflection3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23717() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23718() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23719() { let _ = mk::<Reflection3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23720() { let _ = mk::<Reflection3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23721() { let _ = &mk::<Reflection3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23722() { let _ = &mk::<Reflection3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p23723() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23724() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p23725() { let _ = mk::<Reflection3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p23726() { let _ = mk::<Reflection3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p23727() { let _: Rotation3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23728() { let _: Rotation3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23729() { let _ = mk::<Reflection3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23730() { let _ = mk::<Reflection3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23731() { let _ = &mk::<Reflection3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23732() { let _ = &mk::<Reflection3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23733() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23734() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23735() { let _ = mk::<Reflection3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23736() { let _ = mk::<Reflection3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23737() { let _ = &mk::<Reflection3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23738() { let _ = &mk::<Reflection3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23739() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23740() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23741() { let _ = mk::<Reflection3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23742() { let _ = mk::<Reflection3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23743() { let _ = &mk::<Reflection3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23744() { let _ = &mk::<Reflection3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23745() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23746() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23747() { let _ = mk::<Reflection3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23748() { let _ = mk::<Reflection3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23749() { let _ = &mk::<Reflection3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23750() { let _ = &mk::<Reflection3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p23751() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23752() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p23753() { let _ = mk::<Reflection3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p23754() { let _ = mk::<Reflection3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p23755() { let _: Translation3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23756() { let _: Translation3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23757() { let _ = mk::<Reflection3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23758() { let _ = mk::<Reflection3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23759() { let _ = &mk::<Reflection3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23760() { let _ = &mk::<Reflection3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23761() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23762() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23763() { let _ = mk::<Reflection3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23764() { let _ = mk::<Reflection3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23765() { let _ = &mk::<Reflection3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23766() { let _ = &mk::<Reflection3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23767() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23768() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23769() { let _ = mk::<Reflection3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23770() { let _ = mk::<Reflection3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23771() { let _ = &mk::<Reflection3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23772() { let _ = &mk::<Reflection3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23773() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23774() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23775() { let _ = mk::<Reflection3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23776() { let _ = mk::<Reflection3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23777() { let _ = &mk::<Reflection3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23778() { let _ = &mk::<Reflection3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p23779() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23780() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p23781() { let _ = mk::<Reflection3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p23782() { let _ = mk::<Reflection3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p23783() { let _: Scale3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23784() { let _: Scale3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23785() { let _ = mk::<Reflection3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23786() { let _ = mk::<Reflection3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23787() { let _ = &mk::<Reflection3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23788() { let _ = &mk::<Reflection3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23789() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23790() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23791() { let _ = mk::<Reflection3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23792() { let _ = mk::<Reflection3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23793() { let _ = &mk::<Reflection3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23794() { let _ = &mk::<Reflection3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23795() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23796() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23797() { let _ = mk::<Reflection3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23798() { let _ = mk::<Reflection3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23799() { let _ = &mk::<Reflection3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23800() { let _ = &mk::<Reflection3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23801() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23802() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23803() { let _ = mk::<Reflection3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23804() { let _ = mk::<Reflection3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23805() { let _ = &mk::<Reflection3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23806() { let _ = &mk::<Reflection3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p23807() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23808() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p23809() { let _ = mk::<Reflection3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p23810() { let _ = mk::<Reflection3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p23811() { let _: Shear3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23812() { let _: Shear3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23813() { let _ = mk::<Reflection3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23814() { let _ = mk::<Reflection3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23815() { let _ = &mk::<Reflection3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23816() { let _ = &mk::<Reflection3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23817() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23818() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23819() { let _ = mk::<Reflection3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23820() { let _ = mk::<Reflection3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23821() { let _ = &mk::<Reflection3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23822() { let _ = &mk::<Reflection3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23823() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23824() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23825() { let _ = mk::<Reflection3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23826() { let _ = mk::<Reflection3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23827() { let _ = &mk::<Reflection3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23828() { let _ = &mk::<Reflection3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23829() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23830() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23831() { let _ = mk::<Reflection3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23832() { let _ = mk::<Reflection3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23833() { let _ = &mk::<Reflection3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23834() { let _ = &mk::<Reflection3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p23835() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23836() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p23837() { let _ = mk::<Reflection3<f64>>() == mk::<Reflection3<f64>>(); } // accept equality-kinds
fn p23838() { let _: Reflection3<f64> = mk::<Reflection3<f64>>(); } // accept no-implicit-conversion
fn p23839() { let _: Reflection3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23840() { let _ = mk::<Reflection3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23841() { let _ = mk::<Reflection3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23842() { let _ = &mk::<Reflection3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23843() { let _ = &mk::<Reflection3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23844() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23845() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23846() { let _ = mk::<Reflection3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23847() { let _ = mk::<Reflection3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23848() { let _ = &mk::<Reflection3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23849() { let _ = &mk::<Reflection3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23850() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23851() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23852() { let _ = mk::<Reflection3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23853() { let _ = mk::<Reflection3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23854() { let _ = &mk::<Reflection3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23855() { let _ = &mk::<Reflection3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23856() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23857() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23858() { let _ = mk::<Reflection3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23859() { let _ = mk::<Reflection3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23860() { let _ = &mk::<Reflection3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23861() { let _ = &mk::<Reflection3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p23862() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23863() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p23864() { let _ = mk::<Reflection3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p23865() { let _ = mk::<Reflection3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p23866() { let _: Isometry3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23867() { let _: Isometry3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23868() { let _ = mk::<Reflection3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23869() { let _ = mk::<Reflection3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23870() { let _ = &mk::<Reflection3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23871() { let _ = &mk::<Reflection3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23872() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23873() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23874() { let _ = mk::<Reflection3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23875() { let _ = mk::<Reflection3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23876() { let _ = &mk::<Reflection3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23877() { let _ = &mk::<Reflection3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23878() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23879() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23880() { let _ = mk::<Reflection3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23881() { let _ = mk::<Reflection3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23882() { let _ = &mk::<Reflection3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23883() { let _ = &mk::<Reflection3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23884() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23885() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23886() { let _ = mk::<Reflection3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23887() { let _ = mk::<Reflection3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23888() { let _ = &mk::<Reflection3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23889() { let _ = &mk::<Reflection3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p23890() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23891() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p23892() { let _ = mk::<Reflection3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p23893() { let _ = mk::<Reflection3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p23894() { let _: Similarity3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23895() { let _: Similarity3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23896() { let _ = mk::<Reflection3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23897() { let _ = mk::<Reflection3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23898() { let _ = &mk::<Reflection3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23899() { let _ = &mk::<Reflection3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23900() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23901() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23902() { let _ = mk::<Reflection3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23903() { let _ = mk::<Reflection3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23904() { let _ = &mk::<Reflection3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23905() { let _ = &mk::<Reflection3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23906() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23907() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23908() { let _ = mk::<Reflection3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23909() { let _ = mk::<Reflection3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23910() { let _ = &mk::<Reflection3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23911() { let _ = &mk::<Reflection3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23912() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23913() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23914() { let _ = mk::<Reflection3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23915() { let _ = mk::<Reflection3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23916() { let _ = &mk::<Reflection3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23917() { let _ = &mk::<Reflection3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p23918() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23919() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p23920() { let _ = mk::<Reflection3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p23921() { let _ = mk::<Reflection3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p23922() { let _: Transform3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23923() { let _: Transform3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23924() { let _ = mk::<Reflection3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23925() { let _ = mk::<Reflection3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23926() { let _ = &mk::<Reflection3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23927() { let _ = &mk::<Reflection3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23928() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23929() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23930() { let _ = mk::<Reflection3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23931() { let _ = mk::<Reflection3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23932() { let _ = &mk::<Reflection3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23933() { let _ = &mk::<Reflection3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23934() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23935() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23936() { let _ = mk::<Reflection3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23937() { let _ = mk::<Reflection3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23938() { let _ = &mk::<Reflection3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23939() { let _ = &mk::<Reflection3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23940() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23941() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23942() { let _ = mk::<Reflection3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23943() { let _ = mk::<Reflection3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23944() { let _ = &mk::<Reflection3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23945() { let _ = &mk::<Reflection3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p23946() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23947() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p23948() { let _ = mk::<Reflection3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p23949() { let _ = mk::<Reflection3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p23950() { let _: Perspective3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23951() { let _: Perspective3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23952() { let _ = mk::<Reflection3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23953() { let _ = mk::<Reflection3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23954() { let _ = &mk::<Reflection3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23955() { let _ = &mk::<Reflection3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23956() { let mut x = mk::<Reflection3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23957() { let mut x = mk::<Reflection3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23958() { let _ = mk::<Reflection3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23959() { let _ = mk::<Reflection3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23960() { let _ = &mk::<Reflection3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23961() { let _ = &mk::<Reflection3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23962() { let mut x = mk::<Reflection3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23963() { let mut x = mk::<Reflection3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23964() { let _ = mk::<Reflection3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23965() { let _ = mk::<Reflection3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23966() { let _ = &mk::<Reflection3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23967() { let _ = &mk::<Reflection3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23968() { let mut x = mk::<Reflection3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23969() { let mut x = mk::<Reflection3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23970() { let _ = mk::<Reflection3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23971() { let _ = mk::<Reflection3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23972() { let _ = &mk::<Reflection3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23973() { let _ = &mk::<Reflection3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p23974() { let mut x = mk::<Reflection3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23975() { let mut x = mk::<Reflection3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p23976() { let _ = mk::<Reflection3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p23977() { let _ = mk::<Reflection3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p23978() { let _: Orthographic3<f64> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23979() { let _: Orthographic3<f32> = mk::<Reflection3<f64>>(); } // reject no-implicit-conversion
fn p23980() { let _ = !mk::<Reflection3<f64>>(); } // reject negation
fn p23981() { let _ = !&mk::<Reflection3<f64>>(); } // reject negation
fn p23982() { let _ = mk::<Isometry3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23983() { let _ = mk::<Isometry3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23984() { let _ = &mk::<Isometry3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23985() { let _ = &mk::<Isometry3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23986() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23987() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23988() { let _ = mk::<Isometry3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23989() { let _ = mk::<Isometry3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23990() { let _ = &mk::<Isometry3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23991() { let _ = &mk::<Isometry3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p23992() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23993() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p23994() { let _: Vector3<f64> = mk::<Isometry3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p23995() { let _ = mk::<Isometry3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p23996() { let _ = mk::<Isometry3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p23997() { let _: Vector3<f64> = mk::<Isometry3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p23998() { let _ = mk::<Isometry3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p23999() { let _ = mk::<Isometry3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p24000() { let _: Vector3<f64> = &mk::<Isometry3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p24001() { let _ = &mk::<Isometry3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p24002() { let _ = &mk::<Isometry3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p24003() { let _: Vector3<f64> = &mk::<Isometry3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p24004() { let _ = &mk::<Isometry3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p24005() { let _ = &mk::<Isometry3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p24006() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24007() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24008() { let _ = mk::<Isometry3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24009() { let _ = mk::<Isometry3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24010() { let _ = &mk::<Isometry3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24011() { let _ = &mk::<Isometry3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24012() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24013() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24014() { let _ = mk::<Isometry3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24015() { let _ = mk::<Isometry3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24016() { let _ = &mk::<Isometry3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24017() { let _ = &mk::<Isometry3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24018() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24019() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24020() { let _ = mk::<Isometry3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p24021() { let _ = mk::<Isometry3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p24022() { let _: Vector3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24023() { let _: Vector3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24024() { let _ = mk::<Isometry3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24025() { let _ = mk::<Isometry3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24026() { let _ = &mk::<Isometry3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24027() { let _ = &mk::<Isometry3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24028() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24029() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24030() { let _ = mk::<Isometry3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24031() { let _ = mk::<Isometry3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24032() { let _ = &mk::<Isometry3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24033() { let _ = &mk::<Isometry3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24034() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24035() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24036() { let _ = mk::<Isometry3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24037() { let _ = mk::<Isometry3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24038() { let _ = &mk::<Isometry3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24039() { let _ = &mk::<Isometry3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24040() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24041() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24042() { let _ = mk::<Isometry3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24043() { let _ = mk::<Isometry3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24044() { let _ = &mk::<Isometry3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24045() { let _ = &mk::<Isometry3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24046() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24047() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24048() { let _ = mk::<Isometry3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24049() { let _ = mk::<Isometry3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24050() { let _ = &mk::<Isometry3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24051() { let _ = &mk::<Isometry3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24052() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24053() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24054() { let _ = mk::<Isometry3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p24055() { let _ = mk::<Isometry3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p24056() { let _: Vector4<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24057() { let _: Vector4<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24058() { let _ = mk::<Isometry3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p24059() { let _ = mk::<Isometry3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24060() { let _ = &mk::<Isometry3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p24061() { let _ = &mk::<Isometry3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24062() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24063() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24064() { let _ = mk::<Isometry3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p24065() { let _ = mk::<Isometry3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24066() { let _ = &mk::<Isometry3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p24067() { let _ = &mk::<Isometry3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24068() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24069() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24070() { let _: Point3<f64> = mk::<Isometry3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p24071() { let _ = mk::<Isometry3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p24072() { let _ = mk::<Isometry3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p24073() { let _: Point3<f64> = mk::<Isometry3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p24074() { let _ = mk::<Isometry3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p24075() { let _ = mk::<Isometry3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p24076() { let _: Point3<f64> = &mk::<Isometry3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p24077() { let _ = &mk::<Isometry3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p24078() { let _ = &mk::<Isometry3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p24079() { let _: Point3<f64> = &mk::<Isometry3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p24080() { let _ = &mk::<Isometry3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p24081() { let _ = &mk::<Isometry3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p24082() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24083() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24084() { let _ = mk::<Isometry3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p24085() { let _ = mk::<Isometry3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24086() { let _ = &mk::<Isometry3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p24087() { let _ = &mk::<Isometry3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24088() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24089() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24090() { let _ = mk::<Isometry3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p24091() { let _ = mk::<Isometry3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24092() { let _ = &mk::<Isometry3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p24093() { let _ = &mk::<Isometry3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24094() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24095() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24096() { let _ = mk::<Isometry3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p24097() { let _ = mk::<Isometry3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p24098() { let _: Point3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24099() { let _: Point3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24100() { let _ = mk::<Isometry3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24101() { let _ = mk::<Isometry3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24102() { let _ = &mk::<Isometry3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24103() { let _ = &mk::<Isometry3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24104() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24105() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24106() { let _ = mk::<Isometry3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24107() { let _ = mk::<Isometry3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24108() { let _ = &mk::<Isometry3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24109() { let _ = &mk::<Isometry3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24110() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24111() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24112() { let _ = mk::<Isometry3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24113() { let _ = mk::<Isometry3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24114() { let _ = &mk::<Isometry3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24115() { let _ = &mk::<Isometry3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24116() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24117() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24118() { let _ = mk::<Isometry3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24119() { let _ = mk::<Isometry3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24120() { let _ = &mk::<Isometry3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24121() { let _ = &mk::<Isometry3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24122() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24123() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24124() { let _ = mk::<Isometry3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24125() { let _ = mk::<Isometry3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24126() { let _ = &mk::<Isometry3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24127() { let _ = &mk::<Isometry3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24128() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24129() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24130() { let _ = mk::<Isometry3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p24131() { let _ = mk::<Isometry3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p24132() { let _: Matrix3x3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24133() { let _: Matrix3x3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24134() { let _ = mk::<Isometry3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24135() { let _ = mk::<Isometry3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24136() { let _ = &mk::<Isometry3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24137() { let _ = &mk::<Isometry3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24138() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24139() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24140() { let _ = mk::<Isometry3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24141() { let _ = mk::<Isometry3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24142() { let _ = &mk::<Isometry3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24143() { let _ = &mk::<Isometry3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24144() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24145() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24146() { let _ = mk::<Isometry3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24147() { let _ = mk::<Isometry3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24148() { let _ = &mk::<Isometry3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24149() { let _ = &mk::<Isometry3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24150() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24151() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24152() { let _ = mk::<Isometry3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24153() { let _ = mk::<Isometry3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24154() { let _ = &mk::<Isometry3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24155() { let _ = &mk::<Isometry3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24156() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24157() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24158() { let _ = mk::<Isometry3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24159() { let _ = mk::<Isometry3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24160() { let _ = &mk::<Isometry3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24161() { let _ = &mk::<Isometry3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24162() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24163() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24164() { let _ = mk::<Isometry3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p24165() { let _ = mk::<Isometry3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p24166() { let _: Matrix4x4<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24167() { let _: Matrix4x4<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24168() { let _ = mk::<Isometry3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24169() { let _ = mk::<Isometry3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24170() { let _ = &mk::<Isometry3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24171() { let _ = &mk::<Isometry3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24172() { let mut x = mk::<Isometry3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24173() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24174() { let _ = mk::<Isometry3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24175() { let _ = mk::<Isometry3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24176() { let _ = &mk::<Isometry3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24177() { let _ = &mk::<Isometry3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24178() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24179() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24180() { let _ = mk::<Isometry3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24181() { let _ = mk::<Isometry3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24182() { let _ = &mk::<Isometry3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24183() { let _ = &mk::<Isometry3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24184() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24185() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24186() { let _ = mk::<Isometry3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24187() { let _ = mk::<Isometry3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24188() { let _ = &mk::<Isometry3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24189() { let _ = &mk::<Isometry3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24190() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24191() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24192() { let _ = mk::<Isometry3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24193() { let _ = mk::<Isometry3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24194() { let _ = &mk::<Isometry3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24195() { let _ = &mk::<Isometry3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24196() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24197() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24198() { let _ = mk::<Isometry3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p24199() { let _ = mk::<Isometry3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p24200() { let _: RowVector3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24201() { let _: RowVector3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24202() { let _ = mk::<Isometry3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24203() { let _ = mk::<Isometry3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24204() { let _ = &mk::<Isometry3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24205() { let _ = &mk::<Isometry3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24206() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24207() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24208() { let _ = mk::<Isometry3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24209() { let _ = mk::<Isometry3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24210() { let _ = &mk::<Isometry3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24211() { let _ = &mk::<Isometry3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24212() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24213() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24214() { let _ = mk::<Isometry3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24215() { let _ = mk::<Isometry3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24216() { let _ = &mk::<Isometry3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24217() { let _ = &mk::<Isometry3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24218() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24219() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24220() { let _ = mk::<Isometry3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24221() { let _ = mk::<Isometry3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24222() { let _ = &mk::<Isometry3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24223() { let _ = &mk::<Isometry3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24224() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24225() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24226() { let _ = mk::<Isometry3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24227() { let _ = mk::<Isometry3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24228() { let _ = &mk::<Isometry3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24229() { let _ = &mk::<Isometry3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p24230() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24231() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p24232() { let _ = mk::<Isometry3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p24233() { let _ = mk::<Isometry3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p24234() { let _: Quaternion<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24235() { let _: Quaternion<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24236() { let _ = mk::<Isometry3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p24237() { let _ = mk::<Isometry3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24238() { let _ = &mk::<Isometry3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p24239() { let _ = &mk::<Isometry3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24240() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24241() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24242() { let _ = mk::<Isometry3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p24243() { let _ = mk::<Isometry3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24244() { let _ = &mk::<Isometry3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p24245() { let _ = &mk::<Isometry3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24246() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24247() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24248() { let _ = mk::<Isometry3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p24249() { let _ = mk::<Isometry3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24250() { let _ = &mk::<Isometry3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p24251() { let _ = &mk::<Isometry3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24252() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24253() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24254() { let _ = mk::<Isometry3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p24255() { let _ = mk::<Isometry3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24256() { let _ = &mk::<Isometry3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p24257() { let _ = &mk::<Isometry3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24258() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24259() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24260() { let _ = mk::<Isometry3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p24261() { let _ = mk::<Isometry3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24262() { let _ = &mk::<Isometry3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p24263() { let _ = &mk::<Isometry3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p24264() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24265() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p24266() { let _ = mk::<Isometry3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p24267() { let _ = mk::<Isometry3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p24268() { let _: Complex<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24269() { let _: Complex<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24270() { let _ = mk::<Isometry3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p24271() { let _ = mk::<Isometry3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24272() { let _ = &mk::<Isometry3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p24273() { let _ = &mk::<Isometry3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24274() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24275() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24276() { let _ = mk::<Isometry3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p24277() { let _ = mk::<Isometry3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24278() { let _ = &mk::<Isometry3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p24279() { let _ = &mk::<Isometry3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24280() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24281() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24282() { let _ = mk::<Isometry3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p24283() { let _ = mk::<Isometry3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24284() { let _ = &mk::<Isometry3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p24285() { let _ = &mk::<Isometry3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24286() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24287() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24288() { let _ = mk::<Isometry3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p24289() { let _ = mk::<Isometry3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24290() { let _ = &mk::<Isometry3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p24291() { let _ = &mk::<Isometry3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24292() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24293() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24294() { let _ = mk::<Isometry3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p24295() { let _ = mk::<Isometry3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24296() { let _ = &mk::<Isometry3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p24297() { let _ = &mk::<Isometry3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p24298() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24299() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p24300() { let _ = mk::<Isometry3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p24301() { let _ = mk::<Isometry3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p24302() { let _: Radians<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24303() { let _: Radians<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24304() { let _ = mk::<Isometry3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24305() { let _ = mk::<Isometry3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24306() { let _ = &mk::<Isometry3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24307() { let _ = &mk::<Isometry3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24308() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24309() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24310() { let _ = mk::<Isometry3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24311() { let _ = mk::<Isometry3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24312() { let _ = &mk::<Isometry3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24313() { let _ = &mk::<Isometry3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24314() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24315() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24316() { let _ = mk::<Isometry3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24317() { let _ = mk::<Isometry3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24318() { let _ = &mk::<Isometry3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24319() { let _ = &mk::<Isometry3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24320() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24321() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24322() { let _ = mk::<Isometry3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24323() { let _ = mk::<Isometry3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24324() { let _ = &mk::<Isometry3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24325() { let _ = &mk::<Isometry3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24326() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24327() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24328() { let _ = mk::<Isometry3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24329() { let _ = mk::<Isometry3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24330() { let _ = &mk::<Isometry3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24331() { let _ = &mk::<Isometry3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p24332() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24333() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p24334() { let _ = mk::<Isometry3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p24335() { let _ = mk::<Isometry3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p24336() { let _: Degrees<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24337() { let _: Degrees<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24338() { let _ = mk::<Isometry3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p24339() { let _ = mk::<Isometry3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p24340() { let _ = &mk::<Isometry3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p24341() { let _ = &mk::<Isometry3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p24342() { let mut x = mk::<Isometry3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p24343() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p24344() { let _ = mk::<Isometry3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p24345() { let _ = mk::<Isometry3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p24346() { let _ = &mk::<Isometry3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p24347() { let _ = &mk::<Isometry3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p24348() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p24349() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p24350() { let _ = mk::<Isometry3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p24351() { let _ = mk::<Isometry3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p24352() { let _ = &mk::<Isometry3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p24353() { let _ = &mk::<Isometry3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p24354() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p24355() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p24356() { let _ = mk::<Isometry3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p24357() { let _ = mk::<Isometry3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p24358() { let _ = &mk::<Isometry3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p24359() { let _ = &mk::<Isometry3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p24360() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p24361() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p24362() { let _ = mk::<Isometry3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p24363() { let _ = mk::<Isometry3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p24364() { let _ = &mk::<Isometry3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p24365() { let _ = &mk::<Isometry3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p24366() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p24367() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p24368() { let _ = mk::<Isometry3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p24369() { let _ = mk::<Isometry3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p24370() { let _: f64 = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24371() { let _: f32 = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24372() { let _ = mk::<Isometry3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24373() { let _ = mk::<Isometry3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24374() { let _ = &mk::<Isometry3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24375() { let _ = &mk::<Isometry3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24376() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24377() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24378() { let _ = mk::<Isometry3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24379() { let _ = mk::<Isometry3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24380() { let _ = &mk::<Isometry3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24381() { let _ = &mk::<Isometry3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24382() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24383() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24384() { let _ = mk::<Isometry3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24385() { let _ = mk::<Isometry3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24386() { let _ = &mk::<Isometry3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24387() { let _ = &mk::<Isometry3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24388() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24389() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24390() { let _ = mk::<Isometry3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24391() { let _ = mk::<Isometry3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24392() { let _ = &mk::<Isometry3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24393() { let _ = &mk::<Isometry3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24394() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24395() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24396() { let _ = mk::<Isometry3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24397() { let _ = mk::<Isometry3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24398() { let _ = &mk::<Isometry3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24399() { let _ = &mk::<Isometry3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p24400() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24401() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p24402() { let _ = mk::<Isometry3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p24403() { let _ = mk::<Isometry3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p24404() { let _: Euler<Radians<f64>> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24405() { let _: Euler<Radians<f32>> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24406() { let _ = mk::<Isometry3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24407() { let _ = mk::<Isometry3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24408() { let _ = &mk::<Isometry3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24409() { let _ = &mk::<Isometry3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24410() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24411() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24412() { let _ = mk::<Isometry3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24413() { let _ = mk::<Isometry3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24414() { let _ = &mk::<Isometry3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24415() { let _ = &mk::<Isometry3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24416() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24417() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24418() { let _ = mk::<Isometry3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24419() { let _ = mk::<Isometry3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24420() { let _ = &mk::<Isometry3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24421() { let _ = &mk::<Isometry3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24422() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24423() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24424() { let _ = mk::<Isometry3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24425() { let _ = mk::<Isometry3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24426() { let _ = &mk::<Isometry3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24427() { let _ = &mk::<Isometry3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p24428() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24429() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p24430() { let _ = mk::<Isometry3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p24431() { let _ = mk::<Isometry3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p24432() { let _: Unit<Vector3<f64>> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24433() { let _: Unit<Vector3<f32>> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24434() { let _ = mk::<Isometry3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24435() { let _ = mk::<Isometry3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24436() { let _ = &mk::<Isometry3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24437() { let _ = &mk::<Isometry3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24438() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24439() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24440() { let _ = mk::<Isometry3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24441() { let _ = mk::<Isometry3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24442() { let _ = &mk::<Isometry3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24443() { let _ = &mk::<Isometry3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24444() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24445() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24446() { let _ = mk::<Isometry3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24447() { let _ = mk::<Isometry3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24448() { let _ = &mk::<Isometry3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24449() { let _ = &mk::<Isometry3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24450() { let mut x = mk::<Isometry3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24451() { let mut x = mk::<Isometry3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24452() { let _ = mk::<Isometry3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24453() { let _ = mk::<Isometry3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24454() { let _ = &mk::<Isometry3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24455() { let _ = &mk::<Isometry3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24456() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24457() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24458() { let _ = mk::<Isometry3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24459() { let _ = mk::<Isometry3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24460() { let _ = &mk::<Isometry3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24461() { let _ = &mk::<Isometry3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p24462() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24463() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p24464() { let _ = mk::<Isometry3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p24465() { let _ = mk::<Isometry3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p24466() { let _: Unit<Quaternion<f64>> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24467() { let _: Unit<Quaternion<f32>> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24468() { let _ = mk::<Isometry3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24469() { let _ = mk::<Isometry3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24470() { let _ = &mk::<Isometry3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24471() { let _ = &mk::<Isometry3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24472() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24473() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24474() { let _ = mk::<Isometry3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24475() { let _ = mk::<Isometry3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24476() { let _ = &mk::<Isometry3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24477() { let _ = &mk::<Isometry3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24478() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24479() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24480() { let _: Isometry3<f64> = mk::<Isometry3<f64>>() * mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p24481() { let _ = mk::<Isometry3<f64>>() * mk::<Rotation3<f32>>(); } // reject operator-precision
fn p24482() { let _ = mk::<Isometry3<f32>>() * mk::<Rotation3<f64>>(); } // reject operator-precision
fn p24483() { let _: Isometry3<f64> = mk::<Isometry3<f64>>() * &mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p24484() { let _ = mk::<Isometry3<f64>>() * &mk::<Rotation3<f32>>(); } // reject operator-precision
fn p24485() { let _ = mk::<Isometry3<f32>>() * &mk::<Rotation3<f64>>(); } // reject operator-precision
fn p24486() { let _: Isometry3<f64> = &mk::<Isometry3<f64>>() * mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p24487() { let _ = &mk::<Isometry3<f64>>() * mk::<Rotation3<f32>>(); } // reject operator-precision
fn p24488() { let _ = &mk::<Isometry3<f32>>() * mk::<Rotation3<f64>>(); } // reject operator-precision
fn p24489() { let _: Isometry3<f64> = &mk::<Isometry3<f64>>() * &mk::<Rotation3<f64>>(); } // accept operator-kinds
fn p24490() { let _ = &mk::<Isometry3<f64>>() * &mk::<Rotation3<f32>>(); } // reject operator-precision
fn p24491() { let _ = &mk::<Isometry3<f32>>() * &mk::<Rotation3<f64>>(); } // reject operator-precision
fn p24492() { let _ = mk::<Isometry3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24493() { let _ = mk::<Isometry3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24494() { let _ = &mk::<Isometry3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24495() { let _ = &mk::<Isometry3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24496() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24497() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24498() { let _ = mk::<Isometry3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24499() { let _ = mk::<Isometry3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24500() { let _ = &mk::<Isometry3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24501() { let _ = &mk::<Isometry3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p24502() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24503() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p24504() { let _ = mk::<Isometry3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p24505() { let _ = mk::<Isometry3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p24506() { let _: Rotation3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24507() { let _: Rotation3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24508() { let _ = mk::<Isometry3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24509() { let _ = mk::<Isometry3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24510() { let _ = &mk::<Isometry3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24511() { let _ = &mk::<Isometry3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24512() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24513() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24514() { let _ = mk::<Isometry3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24515() { let _ = mk::<Isometry3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24516() { let _ = &mk::<Isometry3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24517() { let _ = &mk::<Isometry3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24518() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24519() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24520() { let _: Isometry3<f64> = mk::<Isometry3<f64>>() * mk::<Translation3<f64>>(); } // accept operator-kinds
fn p24521() { let _ = mk::<Isometry3<f64>>() * mk::<Translation3<f32>>(); } // reject operator-precision
fn p24522() { let _ = mk::<Isometry3<f32>>() * mk::<Translation3<f64>>(); } // reject operator-precision
fn p24523() { let _: Isometry3<f64> = mk::<Isometry3<f64>>() * &mk::<Translation3<f64>>(); } // accept operator-kinds
fn p24524() { let _ = mk::<Isometry3<f64>>() * &mk::<Translation3<f32>>(); } // reject operator-precision
fn p24525() { let _ = mk::<Isometry3<f32>>() * &mk::<Translation3<f64>>(); } // reject operator-precision
fn p24526() { let _: Isometry3<f64> = &mk::<Isometry3<f64>>() * mk::<Translation3<f64>>(); } // accept operator-kinds
fn p24527() { let _ = &mk::<Isometry3<f64>>() * mk::<Translation3<f32>>(); } // reject operator-precision
fn p24528() { let _ = &mk::<Isometry3<f32>>() * mk::<Translation3<f64>>(); } // reject operator-precision
fn p24529() { let _: Isometry3<f64> = &mk::<Isometry3<f64>>() * &mk::<Translation3<f64>>(); } // accept operator-kinds
fn p24530() { let _ = &mk::<Isometry3<f64>>() * &mk::<Translation3<f32>>(); } // reject operator-precision
fn p24531() { let _ = &mk::<Isometry3<f32>>() * &mk::<Translation3<f64>>(); } // reject operator-precision
fn p24532() { let _ = mk::<Isometry3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24533() { let _ = mk::<Isometry3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24534() { let _ = &mk::<Isometry3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24535() { let _ = &mk::<Isometry3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24536() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24537() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24538() { let _ = mk::<Isometry3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24539() { let _ = mk::<Isometry3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24540() { let _ = &mk::<Isometry3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24541() { let _ = &mk::<Isometry3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p24542() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24543() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p24544() { let _ = mk::<Isometry3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p24545() { let _ = mk::<Isometry3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p24546() { let _: Translation3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24547() { let _: Translation3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24548() { let _ = mk::<Isometry3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24549() { let _ = mk::<Isometry3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24550() { let _ = &mk::<Isometry3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24551() { let _ = &mk::<Isometry3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24552() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24553() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24554() { let _ = mk::<Isometry3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24555() { let _ = mk::<Isometry3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24556() { let _ = &mk::<Isometry3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24557() { let _ = &mk::<Isometry3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24558() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24559() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24560() { let _ = mk::<Isometry3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24561() { let _ = mk::<Isometry3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24562() { let _ = &mk::<Isometry3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24563() { let _ = &mk::<Isometry3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24564() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24565() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24566() { let _ = mk::<Isometry3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24567() { let _ = mk::<Isometry3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24568() { let _ = &mk::<Isometry3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24569() { let _ = &mk::<Isometry3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p24570() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24571() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p24572() { let _ = mk::<Isometry3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p24573() { let _ = mk::<Isometry3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p24574() { let _: Scale3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24575() { let _: Scale3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24576() { let _ = mk::<Isometry3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24577() { let _ = mk::<Isometry3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24578() { let _ = &mk::<Isometry3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24579() { let _ = &mk::<Isometry3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24580() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24581() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24582() { let _ = mk::<Isometry3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24583() { let _ = mk::<Isometry3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24584() { let _ = &mk::<Isometry3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24585() { let _ = &mk::<Isometry3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24586() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24587() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24588() { let _ = mk::<Isometry3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24589() { let _ = mk::<Isometry3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24590() { let _ = &mk::<Isometry3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24591() { let _ = &mk::<Isometry3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24592() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24593() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24594() { let _ = mk::<Isometry3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24595() { let _ = mk::<Isometry3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24596() { let _ = &mk::<Isometry3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24597() { let _ = &mk::<Isometry3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p24598() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24599() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p24600() { let _ = mk::<Isometry3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p24601() { let _ = mk::<Isometry3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p24602() { let _: Shear3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24603() { let _: Shear3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24604() { let _ = mk::<Isometry3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24605() { let _ = mk::<Isometry3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24606() { let _ = &mk::<Isometry3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24607() { let _ = &mk::<Isometry3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24608() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24609() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24610() { let _ = mk::<Isometry3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24611() { let _ = mk::<Isometry3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24612() { let _ = &mk::<Isometry3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24613() { let _ = &mk::<Isometry3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24614() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24615() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24616() { let _ = mk::<Isometry3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24617() { let _ = mk::<Isometry3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24618() { let _ = &mk::<Isometry3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24619() { let _ = &mk::<Isometry3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24620() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24621() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24622() { let _ = mk::<Isometry3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24623() { let _ = mk::<Isometry3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24624() { let _ = &mk::<Isometry3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24625() { let _ = &mk::<Isometry3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p24626() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24627() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p24628() { let _ = mk::<Isometry3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p24629() { let _ = mk::<Isometry3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p24630() { let _: Reflection3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24631() { let _: Reflection3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24632() { let _ = mk::<Isometry3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24633() { let _ = mk::<Isometry3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24634() { let _ = &mk::<Isometry3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24635() { let _ = &mk::<Isometry3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24636() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24637() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24638() { let _ = mk::<Isometry3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24639() { let _ = mk::<Isometry3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24640() { let _ = &mk::<Isometry3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24641() { let _ = &mk::<Isometry3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24642() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24643() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24644() { let _: Isometry3<f64> = mk::<Isometry3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p24645() { let _ = mk::<Isometry3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p24646() { let _ = mk::<Isometry3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p24647() { let _: Isometry3<f64> = mk::<Isometry3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p24648() { let _ = mk::<Isometry3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p24649() { let _ = mk::<Isometry3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p24650() { let _: Isometry3<f64> = &mk::<Isometry3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p24651() { let _ = &mk::<Isometry3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p24652() { let _ = &mk::<Isometry3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p24653() { let _: Isometry3<f64> = &mk::<Isometry3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p24654() { let _ = &mk::<Isometry3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p24655() { let _ = &mk::<Isometry3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p24656() { let _ = mk::<Isometry3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24657() { let _ = mk::<Isometry3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24658() { let _ = &mk::<Isometry3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24659() { let _ = &mk::<Isometry3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24660() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24661() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24662() { let _ = mk::<Isometry3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24663() { let _ = mk::<Isometry3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24664() { let _ = &mk::<Isometry3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24665() { let _ = &mk::<Isometry3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p24666() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24667() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p24668() { let _ = mk::<Isometry3<f64>>() == mk::<Isometry3<f64>>(); } // accept equality-kinds
fn p24669() { let _: Isometry3<f64> = mk::<Isometry3<f64>>(); } // accept no-implicit-conversion
fn p24670() { let _: Isometry3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24671() { let _ = mk::<Isometry3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24672() { let _ = mk::<Isometry3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24673() { let _ = &mk::<Isometry3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24674() { let _ = &mk::<Isometry3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24675() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24676() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24677() { let _ = mk::<Isometry3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24678() { let _ = mk::<Isometry3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24679() { let _ = &mk::<Isometry3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24680() { let _ = &mk::<Isometry3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24681() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24682() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24683() { let _ = mk::<Isometry3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24684() { let _ = mk::<Isometry3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24685() { let _ = &mk::<Isometry3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24686() { let _ = &mk::<Isometry3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24687() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24688() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24689() { let _ = mk::<Isometry3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24690() { let _ = mk::<Isometry3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24691() { let _ = &mk::<Isometry3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24692() { let _ = &mk::<Isometry3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p24693() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24694() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p24695() { let _ = mk::<Isometry3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p24696() { let _ = mk::<Isometry3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p24697() { let _: Similarity3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24698() { let _: Similarity3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24699() { let _ = mk::<Isometry3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24700() { let _ = mk::<Isometry3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24701() { let _ = &mk::<Isometry3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24702() { let _ = &mk::<Isometry3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24703() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24704() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24705() { let _ = mk::<Isometry3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24706() { let _ = mk::<Isometry3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24707() { let _ = &mk::<Isometry3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24708() { let _ = &mk::<Isometry3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24709() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24710() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24711() { let _ = mk::<Isometry3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24712() { let _ = mk::<Isometry3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24713() { let _ = &mk::<Isometry3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24714() { let _ = &mk::<Isometry3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24715() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24716() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24717() { let _ = mk::<Isometry3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24718() { let _ = mk::<Isometry3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24719() { let _ = &mk::<Isometry3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24720() { let _ = &mk::<Isometry3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p24721() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24722() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p24723() { let _ = mk::<Isometry3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p24724() { let _ = mk::<Isometry3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p24725() { let _: Transform3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24726() { let _: Transform3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24727() { let _ = mk::<Isometry3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24728() { let _ = mk::<Isometry3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24729() { let _ = &mk::<Isometry3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24730() { let _ = &mk::<Isometry3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24731() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24732() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24733() { let _ = mk::<Isometry3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24734() { let _ = mk::<Isometry3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24735() { let _ = &mk::<Isometry3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24736() { let _ = &mk::<Isometry3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24737() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24738() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24739() { let _ = mk::<Isometry3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24740() { let _ = mk::<Isometry3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24741() { let _ = &mk::<Isometry3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24742() { let _ = &mk::<Isometry3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24743() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24744() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24745() { let _ = mk::<Isometry3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24746() { let _ = mk::<Isometry3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24747() { let _ = &mk::<Isometry3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24748() { let _ = &mk::<Isometry3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p24749() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24750() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p24751() { let _ = mk::<Isometry3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p24752() { let _ = mk::<Isometry3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p24753() { let _: Perspective3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24754() { let _: Perspective3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24755() { let _ = mk::<Isometry3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24756() { let _ = mk::<Isometry3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24757() { let _ = &mk::<Isometry3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24758() { let _ = &mk::<Isometry3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24759() { let mut x = mk::<Isometry3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24760() { let mut x = mk::<Isometry3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24761() { let _ = mk::<Isometry3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24762() { let _ = mk::<Isometry3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24763() { let _ = &mk::<Isometry3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24764() { let _ = &mk::<Isometry3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24765() { let mut x = mk::<Isometry3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24766() { let mut x = mk::<Isometry3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24767() { let _ = mk::<Isometry3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24768() { let _ = mk::<Isometry3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24769() { let _ = &mk::<Isometry3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24770() { let _ = &mk::<Isometry3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24771() { let mut x = mk::<Isometry3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24772() { let mut x = mk::<Isometry3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24773() { let _ = mk::<Isometry3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24774() { let _ = mk::<Isometry3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24775() { let _ = &mk::<Isometry3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24776() { let _ = &mk::<Isometry3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p24777() { let mut x = mk::<Isometry3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24778() { let mut x = mk::<Isometry3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p24779() { let _ = mk::<Isometry3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p24780() { let _ = mk::<Isometry3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p24781() { let _: Orthographic3<f64> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24782() { let _: Orthographic3<f32> = mk::<Isometry3<f64>>(); } // reject no-implicit-conversion
fn p24783() { let _ = !mk::<Isometry3<f64>>(); } // reject negation
fn p24784() { let _ = !&mk::<Isometry3<f64>>(); } // reject negation
fn p24785() { let _ = mk::<Similarity3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24786() { let _ = mk::<Similarity3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24787() { let _ = &mk::<Similarity3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24788() { let _ = &mk::<Similarity3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24789() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24790() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24791() { let _ = mk::<Similarity3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24792() { let _ = mk::<Similarity3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24793() { let _ = &mk::<Similarity3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24794() { let _ = &mk::<Similarity3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24795() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24796() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24797() { let _: Vector3<f64> = mk::<Similarity3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p24798() { let _ = mk::<Similarity3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p24799() { let _ = mk::<Similarity3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p24800() { let _: Vector3<f64> = mk::<Similarity3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p24801() { let _ = mk::<Similarity3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p24802() { let _ = mk::<Similarity3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p24803() { let _: Vector3<f64> = &mk::<Similarity3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p24804() { let _ = &mk::<Similarity3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p24805() { let _ = &mk::<Similarity3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p24806() { let _: Vector3<f64> = &mk::<Similarity3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p24807() { let _ = &mk::<Similarity3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p24808() { let _ = &mk::<Similarity3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p24809() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24810() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24811() { let _ = mk::<Similarity3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24812() { let _ = mk::<Similarity3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24813() { let _ = &mk::<Similarity3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24814() { let _ = &mk::<Similarity3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24815() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24816() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24817() { let _ = mk::<Similarity3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24818() { let _ = mk::<Similarity3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24819() { let _ = &mk::<Similarity3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24820() { let _ = &mk::<Similarity3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p24821() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24822() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p24823() { let _ = mk::<Similarity3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p24824() { let _ = mk::<Similarity3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p24825() { let _: Vector3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24826() { let _: Vector3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24827() { let _ = mk::<Similarity3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24828() { let _ = mk::<Similarity3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24829() { let _ = &mk::<Similarity3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24830() { let _ = &mk::<Similarity3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24831() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24832() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24833() { let _ = mk::<Similarity3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24834() { let _ = mk::<Similarity3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24835() { let _ = &mk::<Similarity3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24836() { let _ = &mk::<Similarity3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24837() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24838() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24839() { let _ = mk::<Similarity3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24840() { let _ = mk::<Similarity3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24841() { let _ = &mk::<Similarity3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24842() { let _ = &mk::<Similarity3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24843() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24844() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24845() { let _ = mk::<Similarity3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24846() { let _ = mk::<Similarity3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24847() { let _ = &mk::<Similarity3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24848() { let _ = &mk::<Similarity3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24849() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24850() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24851() { let _ = mk::<Similarity3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24852() { let _ = mk::<Similarity3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24853() { let _ = &mk::<Similarity3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24854() { let _ = &mk::<Similarity3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p24855() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24856() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p24857() { let _ = mk::<Similarity3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p24858() { let _ = mk::<Similarity3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p24859() { let _: Vector4<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24860() { let _: Vector4<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24861() { let _ = mk::<Similarity3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p24862() { let _ = mk::<Similarity3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24863() { let _ = &mk::<Similarity3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p24864() { let _ = &mk::<Similarity3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24865() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24866() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24867() { let _ = mk::<Similarity3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p24868() { let _ = mk::<Similarity3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24869() { let _ = &mk::<Similarity3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p24870() { let _ = &mk::<Similarity3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24871() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24872() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24873() { let _: Point3<f64> = mk::<Similarity3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p24874() { let _ = mk::<Similarity3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p24875() { let _ = mk::<Similarity3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p24876() { let _: Point3<f64> = mk::<Similarity3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p24877() { let _ = mk::<Similarity3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p24878() { let _ = mk::<Similarity3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p24879() { let _: Point3<f64> = &mk::<Similarity3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p24880() { let _ = &mk::<Similarity3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p24881() { let _ = &mk::<Similarity3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p24882() { let _: Point3<f64> = &mk::<Similarity3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p24883() { let _ = &mk::<Similarity3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p24884() { let _ = &mk::<Similarity3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p24885() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24886() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24887() { let _ = mk::<Similarity3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p24888() { let _ = mk::<Similarity3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24889() { let _ = &mk::<Similarity3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p24890() { let _ = &mk::<Similarity3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24891() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24892() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24893() { let _ = mk::<Similarity3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p24894() { let _ = mk::<Similarity3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24895() { let _ = &mk::<Similarity3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p24896() { let _ = &mk::<Similarity3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p24897() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24898() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p24899() { let _ = mk::<Similarity3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p24900() { let _ = mk::<Similarity3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p24901() { let _: Point3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24902() { let _: Point3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24903() { let _ = mk::<Similarity3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24904() { let _ = mk::<Similarity3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24905() { let _ = &mk::<Similarity3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24906() { let _ = &mk::<Similarity3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24907() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24908() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24909() { let _ = mk::<Similarity3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24910() { let _ = mk::<Similarity3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24911() { let _ = &mk::<Similarity3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24912() { let _ = &mk::<Similarity3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24913() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24914() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24915() { let _ = mk::<Similarity3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24916() { let _ = mk::<Similarity3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24917() { let _ = &mk::<Similarity3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24918() { let _ = &mk::<Similarity3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24919() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24920() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24921() { let _ = mk::<Similarity3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24922() { let _ = mk::<Similarity3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24923() { let _ = &mk::<Similarity3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24924() { let _ = &mk::<Similarity3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24925() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24926() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24927() { let _ = mk::<Similarity3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24928() { let _ = mk::<Similarity3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24929() { let _ = &mk::<Similarity3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24930() { let _ = &mk::<Similarity3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p24931() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24932() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p24933() { let _ = mk::<Similarity3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p24934() { let _ = mk::<Similarity3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p24935() { let _: Matrix3x3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24936() { let _: Matrix3x3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24937() { let _ = mk::<Similarity3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24938() { let _ = mk::<Similarity3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24939() { let _ = &mk::<Similarity3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24940() { let _ = &mk::<Similarity3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24941() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24942() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24943() { let _ = mk::<Similarity3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24944() { let _ = mk::<Similarity3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24945() { let _ = &mk::<Similarity3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24946() { let _ = &mk::<Similarity3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24947() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24948() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24949() { let _ = mk::<Similarity3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24950() { let _ = mk::<Similarity3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24951() { let _ = &mk::<Similarity3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24952() { let _ = &mk::<Similarity3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24953() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24954() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24955() { let _ = mk::<Similarity3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24956() { let _ = mk::<Similarity3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24957() { let _ = &mk::<Similarity3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24958() { let _ = &mk::<Similarity3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24959() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24960() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24961() { let _ = mk::<Similarity3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24962() { let _ = mk::<Similarity3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24963() { let _ = &mk::<Similarity3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24964() { let _ = &mk::<Similarity3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p24965() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24966() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p24967() { let _ = mk::<Similarity3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p24968() { let _ = mk::<Similarity3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p24969() { let _: Matrix4x4<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24970() { let _: Matrix4x4<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p24971() { let _ = mk::<Similarity3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24972() { let _ = mk::<Similarity3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24973() { let _ = &mk::<Similarity3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24974() { let _ = &mk::<Similarity3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24975() { let mut x = mk::<Similarity3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24976() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24977() { let _ = mk::<Similarity3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24978() { let _ = mk::<Similarity3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24979() { let _ = &mk::<Similarity3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24980() { let _ = &mk::<Similarity3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24981() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24982() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24983() { let _ = mk::<Similarity3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24984() { let _ = mk::<Similarity3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24985() { let _ = &mk::<Similarity3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24986() { let _ = &mk::<Similarity3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24987() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24988() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24989() { let _ = mk::<Similarity3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24990() { let _ = mk::<Similarity3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24991() { let _ = &mk::<Similarity3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24992() { let _ = &mk::<Similarity3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24993() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24994() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p24995() { let _ = mk::<Similarity3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24996() { let _ = mk::<Similarity3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24997() { let _ = &mk::<Similarity3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24998() { let _ = &mk::<Similarity3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p24999() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25000() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25001() { let _ = mk::<Similarity3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p25002() { let _ = mk::<Similarity3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p25003() { let _: RowVector3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25004() { let _: RowVector3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25005() { let _ = mk::<Similarity3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25006() { let _ = mk::<Similarity3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25007() { let _ = &mk::<Similarity3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25008() { let _ = &mk::<Similarity3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25009() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25010() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25011() { let _ = mk::<Similarity3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25012() { let _ = mk::<Similarity3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25013() { let _ = &mk::<Similarity3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25014() { let _ = &mk::<Similarity3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25015() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25016() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25017() { let _ = mk::<Similarity3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25018() { let _ = mk::<Similarity3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25019() { let _ = &mk::<Similarity3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25020() { let _ = &mk::<Similarity3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25021() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25022() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25023() { let _ = mk::<Similarity3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25024() { let _ = mk::<Similarity3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25025() { let _ = &mk::<Similarity3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25026() { let _ = &mk::<Similarity3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25027() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25028() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25029() { let _ = mk::<Similarity3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25030() { let _ = mk::<Similarity3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25031() { let _ = &mk::<Similarity3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25032() { let _ = &mk::<Similarity3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25033() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25034() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25035() { let _ = mk::<Similarity3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p25036() { let _ = mk::<Similarity3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p25037() { let _: Quaternion<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25038() { let _: Quaternion<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25039() { let _ = mk::<Similarity3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p25040() { let _ = mk::<Similarity3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25041() { let _ = &mk::<Similarity3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p25042() { let _ = &mk::<Similarity3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25043() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25044() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25045() { let _ = mk::<Similarity3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p25046() { let _ = mk::<Similarity3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25047() { let _ = &mk::<Similarity3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p25048() { let _ = &mk::<Similarity3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25049() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25050() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25051() { let _ = mk::<Similarity3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p25052() { let _ = mk::<Similarity3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25053() { let _ = &mk::<Similarity3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p25054() { let _ = &mk::<Similarity3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25055() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25056() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25057() { let _ = mk::<Similarity3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p25058() { let _ = mk::<Similarity3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25059() { let _ = &mk::<Similarity3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p25060() { let _ = &mk::<Similarity3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25061() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25062() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25063() { let _ = mk::<Similarity3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p25064() { let _ = mk::<Similarity3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25065() { let _ = &mk::<Similarity3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p25066() { let _ = &mk::<Similarity3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25067() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25068() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25069() { let _ = mk::<Similarity3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p25070() { let _ = mk::<Similarity3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p25071() { let _: Complex<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25072() { let _: Complex<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25073() { let _ = mk::<Similarity3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p25074() { let _ = mk::<Similarity3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25075() { let _ = &mk::<Similarity3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p25076() { let _ = &mk::<Similarity3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25077() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25078() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25079() { let _ = mk::<Similarity3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p25080() { let _ = mk::<Similarity3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25081() { let _ = &mk::<Similarity3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p25082() { let _ = &mk::<Similarity3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25083() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25084() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25085() { let _ = mk::<Similarity3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p25086() { let _ = mk::<Similarity3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25087() { let _ = &mk::<Similarity3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p25088() { let _ = &mk::<Similarity3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25089() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25090() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25091() { let _ = mk::<Similarity3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p25092() { let _ = mk::<Similarity3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25093() { let _ = &mk::<Similarity3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p25094() { let _ = &mk::<Similarity3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25095() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25096() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25097() { let _ = mk::<Similarity3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p25098() { let _ = mk::<Similarity3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25099() { let _ = &mk::<Similarity3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p25100() { let _ = &mk::<Similarity3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25101() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25102() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25103() { let _ = mk::<Similarity3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p25104() { let _ = mk::<Similarity3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p25105() { let _: Radians<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25106() { let _: Radians<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25107() { let _ = mk::<Similarity3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25108() { let _ = mk::<Similarity3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25109() { let _ = &mk::<Similarity3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25110() { let _ = &mk::<Similarity3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25111() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25112() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25113() { let _ = mk::<Similarity3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25114() { let _ = mk::<Similarity3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25115() { let _ = &mk::<Similarity3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25116() { let _ = &mk::<Similarity3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25117() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25118() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25119() { let _ = mk::<Similarity3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25120() { let _ = mk::<Similarity3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25121() { let _ = &mk::<Similarity3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25122() { let _ = &mk::<Similarity3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25123() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25124() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25125() { let _ = mk::<Similarity3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25126() { let _ = mk::<Similarity3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25127() { let _ = &mk::<Similarity3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25128() { let _ = &mk::<Similarity3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25129() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25130() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25131() { let _ = mk::<Similarity3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25132() { let _ = mk::<Similarity3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25133() { let _ = &mk::<Similarity3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25134() { let _ = &mk::<Similarity3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25135() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25136() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25137() { let _ = mk::<Similarity3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p25138() { let _ = mk::<Similarity3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p25139() { let _: Degrees<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25140() { let _: Degrees<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25141() { let _ = mk::<Similarity3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p25142() { let _ = mk::<Similarity3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p25143() { let _ = &mk::<Similarity3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p25144() { let _ = &mk::<Similarity3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p25145() { let mut x = mk::<Similarity3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p25146() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p25147() { let _ = mk::<Similarity3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p25148() { let _ = mk::<Similarity3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p25149() { let _ = &mk::<Similarity3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p25150() { let _ = &mk::<Similarity3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p25151() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p25152() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p25153() { let _ = mk::<Similarity3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p25154() { let _ = mk::<Similarity3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p25155() { let _ = &mk::<Similarity3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p25156() { let _ = &mk::<Similarity3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p25157() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p25158() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p25159() { let _ = mk::<Similarity3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p25160() { let _ = mk::<Similarity3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p25161() { let _ = &mk::<Similarity3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p25162() { let _ = &mk::<Similarity3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p25163() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p25164() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p25165() { let _ = mk::<Similarity3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p25166() { let _ = mk::<Similarity3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p25167() { let _ = &mk::<Similarity3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p25168() { let _ = &mk::<Similarity3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p25169() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p25170() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p25171() { let _ = mk::<Similarity3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p25172() { let _ = mk::<Similarity3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p25173() { let _: f64 = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25174() { let _: f32 = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25175() { let _ = mk::<Similarity3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25176() { let _ = mk::<Similarity3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25177() { let _ = &mk::<Similarity3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25178() { let _ = &mk::<Similarity3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25179() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25180() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25181() { let _ = mk::<Similarity3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25182() { let _ = mk::<Similarity3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25183() { let _ = &mk::<Similarity3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25184() { let _ = &mk::<Similarity3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25185() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25186() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25187() { let _ = mk::<Similarity3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25188() { let _ = mk::<Similarity3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25189() { let _ = &mk::<Similarity3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25190() { let _ = &mk::<Similarity3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25191() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25192() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25193() { let _ = mk::<Similarity3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25194() { let _ = mk::<Similarity3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25195() { let _ = &mk::<Similarity3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25196() { let _ = &mk::<Similarity3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25197() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25198() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25199() { let _ = mk::<Similarity3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25200() { let _ = mk::<Similarity3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25201() { let _ = &mk::<Similarity3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25202() { let _ = &mk::<Similarity3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25203() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25204() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25205() { let _ = mk::<Similarity3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p25206() { let _ = mk::<Similarity3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p25207() { let _: Euler<Radians<f64>> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25208() { let _: Euler<Radians<f32>> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25209() { let _ = mk::<Similarity3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25210() { let _ = mk::<Similarity3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25211() { let _ = &mk::<Similarity3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25212() { let _ = &mk::<Similarity3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25213() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25214() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25215() { let _ = mk::<Similarity3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25216() { let _ = mk::<Similarity3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25217() { let _ = &mk::<Similarity3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25218() { let _ = &mk::<Similarity3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25219() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25220() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25221() { let _ = mk::<Similarity3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25222() { let _ = mk::<Similarity3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25223() { let _ = &mk::<Similarity3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25224() { let _ = &mk::<Similarity3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25225() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25226() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25227() { let _ = mk::<Similarity3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25228() { let _ = mk::<Similarity3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25229() { let _ = &mk::<Similarity3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25230() { let _ = &mk::<Similarity3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p25231() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25232() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p25233() { let _ = mk::<Similarity3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p25234() { let _ = mk::<Similarity3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p25235() { let _: Unit<Vector3<f64>> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25236() { let _: Unit<Vector3<f32>> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25237() { let _ = mk::<Similarity3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25238() { let _ = mk::<Similarity3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25239() { let _ = &mk::<Similarity3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25240() { let _ = &mk::<Similarity3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25241() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25242() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25243() { let _ = mk::<Similarity3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25244() { let _ = mk::<Similarity3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25245() { let _ = &mk::<Similarity3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25246() { let _ = &mk::<Similarity3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25247() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25248() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25249() { let _ = mk::<Similarity3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25250() { let _ = mk::<Similarity3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25251() { let _ = &mk::<Similarity3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25252() { let _ = &mk::<Similarity3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25253() { let mut x = mk::<Similarity3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25254() { let mut x = mk::<Similarity3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25255() { let _ = mk::<Similarity3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25256() { let _ = mk::<Similarity3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25257() { let _ = &mk::<Similarity3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25258() { let _ = &mk::<Similarity3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25259() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25260() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25261() { let _ = mk::<Similarity3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25262() { let _ = mk::<Similarity3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25263() { let _ = &mk::<Similarity3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25264() { let _ = &mk::<Similarity3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p25265() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25266() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p25267() { let _ = mk::<Similarity3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p25268() { let _ = mk::<Similarity3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p25269() { let _: Unit<Quaternion<f64>> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25270() { let _: Unit<Quaternion<f32>> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25271() { let _ = mk::<Similarity3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25272() { let _ = mk::<Similarity3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25273() { let _ = &mk::<Similarity3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25274() { let _ = &mk::<Similarity3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25275() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25276() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25277() { let _ = mk::<Similarity3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25278() { let _ = mk::<Similarity3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25279() { let _ = &mk::<Similarity3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25280() { let _ = &mk::<Similarity3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25281() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25282() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25283() { let _ = mk::<Similarity3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25284() { let _ = mk::<Similarity3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25285() { let _ = &mk::<Similarity3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25286() { let _ = &mk::<Similarity3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25287() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25288() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25289() { let _ = mk::<Similarity3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25290() { let _ = mk::<Similarity3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25291() { let _ = &mk::<Similarity3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25292() { let _ = &mk::<Similarity3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p25293() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25294() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p25295() { let _ = mk::<Similarity3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p25296() { let _ = mk::<Similarity3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p25297() { let _: Rotation3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25298() { let _: Rotation3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25299() { let _ = mk::<Similarity3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25300() { let _ = mk::<Similarity3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25301() { let _ = &mk::<Similarity3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25302() { let _ = &mk::<Similarity3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25303() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25304() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25305() { let _ = mk::<Similarity3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25306() { let _ = mk::<Similarity3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25307() { let _ = &mk::<Similarity3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25308() { let _ = &mk::<Similarity3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25309() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25310() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25311() { let _ = mk::<Similarity3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25312() { let _ = mk::<Similarity3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25313() { let _ = &mk::<Similarity3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25314() { let _ = &mk::<Similarity3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25315() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25316() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25317() { let _ = mk::<Similarity3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25318() { let _ = mk::<Similarity3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25319() { let _ = &mk::<Similarity3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25320() { let _ = &mk::<Similarity3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p25321() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25322() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p25323() { let _ = mk::<Similarity3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p25324() { let _ = mk::<Similarity3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p25325() { let _: Translation3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25326() { let _: Translation3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25327() { let _ = mk::<Similarity3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25328() { let _ = mk::<Similarity3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25329() { let _ = &mk::<Similarity3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25330() { let _ = &mk::<Similarity3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25331() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25332() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25333() { let _ = mk::<Similarity3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25334() { let _ = mk::<Similarity3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25335() { let _ = &mk::<Similarity3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25336() { let _ = &mk::<Similarity3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25337() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25338() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25339() { let _ = mk::<Similarity3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25340() { let _ = mk::<Similarity3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25341() { let _ = &mk::<Similarity3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25342() { let _ = &mk::<Similarity3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25343() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25344() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25345() { let _ = mk::<Similarity3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25346() { let _ = mk::<Similarity3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25347() { let _ = &mk::<Similarity3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25348() { let _ = &mk::<Similarity3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p25349() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25350() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p25351() { let _ = mk::<Similarity3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p25352() { let _ = mk::<Similarity3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p25353() { let _: Scale3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25354() { let _: Scale3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25355() { let _ = mk::<Similarity3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25356() { let _ = mk::<Similarity3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25357() { let _ = &mk::<Similarity3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25358() { let _ = &mk::<Similarity3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25359() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25360() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25361() { let _ = mk::<Similarity3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25362() { let _ = mk::<Similarity3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25363() { let _ = &mk::<Similarity3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25364() { let _ = &mk::<Similarity3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25365() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25366() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25367() { let _ = mk::<Similarity3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25368() { let _ = mk::<Similarity3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25369() { let _ = &mk::<Similarity3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25370() { let _ = &mk::<Similarity3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25371() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25372() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25373() { let _ = mk::<Similarity3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25374() { let _ = mk::<Similarity3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25375() { let _ = &mk::<Similarity3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25376() { let _ = &mk::<Similarity3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p25377() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25378() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p25379() { let _ = mk::<Similarity3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p25380() { let _ = mk::<Similarity3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p25381() { let _: Shear3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25382() { let _: Shear3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25383() { let _ = mk::<Similarity3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25384() { let _ = mk::<Similarity3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25385() { let _ = &mk::<Similarity3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25386() { let _ = &mk::<Similarity3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25387() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25388() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25389() { let _ = mk::<Similarity3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25390() { let _ = mk::<Similarity3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25391() { let _ = &mk::<Similarity3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25392() { let _ = &mk::<Similarity3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25393() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25394() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25395() { let _ = mk::<Similarity3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25396() { let _ = mk::<Similarity3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25397() { let _ = &mk::<Similarity3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25398() { let _ = &mk::<Similarity3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25399() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25400() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25401() { let _ = mk::<Similarity3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25402() { let _ = mk::<Similarity3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25403() { let _ = &mk::<Similarity3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25404() { let _ = &mk::<Similarity3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p25405() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25406() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p25407() { let _ = mk::<Similarity3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p25408() { let _ = mk::<Similarity3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p25409() { let _: Reflection3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25410() { let _: Reflection3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25411() { let _ = mk::<Similarity3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25412() { let _ = mk::<Similarity3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25413() { let _ = &mk::<Similarity3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25414() { let _ = &mk::<Similarity3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25415() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25416() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25417() { let _ = mk::<Similarity3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25418() { let _ = mk::<Similarity3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25419() { let _ = &mk::<Similarity3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25420() { let _ = &mk::<Similarity3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25421() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25422() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25423() { let _: Similarity3<f64> = mk::<Similarity3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p25424() { let _ = mk::<Similarity3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p25425() { let _ = mk::<Similarity3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p25426() { let _: Similarity3<f64> = mk::<Similarity3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p25427() { let _ = mk::<Similarity3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p25428() { let _ = mk::<Similarity3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p25429() { let _: Similarity3<f64> = &mk::<Similarity3<f64>>() * mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p25430() { let _ = &mk::<Similarity3<f64>>() * mk::<Isometry3<f32>>(); } // reject operator-precision
fn p25431() { let _ = &mk::<Similarity3<f32>>() * mk::<Isometry3<f64>>(); } // reject operator-precision
fn p25432() { let _: Similarity3<f64> = &mk::<Similarity3<f64>>() * &mk::<Isometry3<f64>>(); } // accept operator-kinds
fn p25433() { let _ = &mk::<Similarity3<f64>>() * &mk::<Isometry3<f32>>(); } // reject operator-precision
fn p25434() { let _ = &mk::<Similarity3<f32>>() * &mk::<Isometry3<f64>>(); } // reject operator-precision
fn p25435() { let _ = mk::<Similarity3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25436() { let _ = mk::<Similarity3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25437() { let _ = &mk::<Similarity3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25438() { let _ = &mk::<Similarity3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25439() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25440() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25441() { let _ = mk::<Similarity3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25442() { let _ = mk::<Similarity3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25443() { let _ = &mk::<Similarity3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25444() { let _ = &mk::<Similarity3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p25445() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25446() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p25447() { let _ = mk::<Similarity3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p25448() { let _ = mk::<Similarity3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p25449() { let _: Isometry3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25450() { let _: Isometry3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25451() { let _ = mk::<Similarity3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25452() { let _ = mk::<Similarity3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25453() { let _ = &mk::<Similarity3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25454() { let _ = &mk::<Similarity3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25455() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25456() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25457() { let _ = mk::<Similarity3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25458() { let _ = mk::<Similarity3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25459() { let _ = &mk::<Similarity3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25460() { let _ = &mk::<Similarity3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25461() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25462() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25463() { let _: Similarity3<f64> = mk::<Similarity3<f64>>() * mk::<Similarity3<f64>>(); } // accept operator-kinds
fn p25464() { let _ = mk::<Similarity3<f64>>() * mk::<Similarity3<f32>>(); } // reject operator-precision
fn p25465() { let _ = mk::<Similarity3<f32>>() * mk::<Similarity3<f64>>(); } // reject operator-precision
fn p25466() { let _: Similarity3<f64> = mk::<Similarity3<f64>>() * &mk::<Similarity3<f64>>(); } // accept operator-kinds
fn p25467() { let _ = mk::<Similarity3<f64>>() * &mk::<Similarity3<f32>>(); } // reject operator-precision
fn p25468() { let _ = mk::<Similarity3<f32>>() * &mk::<Similarity3<f64>>(); } // reject operator-precision
fn p25469() { let _: Similarity3<f64> = &mk::<Similarity3<f64>>() * mk::<Similarity3<f64>>(); } // accept operator-kinds
fn p25470() { let _ = &mk::<Similarity3<f64>>() * mk::<Similarity3<f32>>(); } // reject operator-precision
fn p25471() { let _ = &mk::<Similarity3<f32>>() * mk::<Similarity3<f64>>(); } // reject operator-precision
fn p25472() { let _: Similarity3<f64> = &mk::<Similarity3<f64>>() * &mk::<Similarity3<f64>>(); } // accept operator-kinds
fn p25473() { let _ = &mk::<Similarity3<f64>>() * &mk::<Similarity3<f32>>(); } // reject operator-precision
fn p25474() { let _ = &mk::<Similarity3<f32>>() * &mk::<Similarity3<f64>>(); } // reject operator-precision
fn p25475() { let _ = mk::<Similarity3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25476() { let _ = mk::<Similarity3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25477() { let _ = &mk::<Similarity3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25478() { let _ = &mk::<Similarity3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25479() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25480() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25481() { let _ = mk::<Similarity3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25482() { let _ = mk::<Similarity3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25483() { let _ = &mk::<Similarity3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25484() { let _ = &mk::<Similarity3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p25485() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25486() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p25487() { let _ = mk::<Similarity3<f64>>() == mk::<Similarity3<f64>>(); } // accept equality-kinds
fn p25488() { let _: Similarity3<f64> = mk::<Similarity3<f64>>(); } // accept no-implicit-conversion
fn p25489() { let _: Similarity3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25490() { let _ = mk::<Similarity3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25491() { let _ = mk::<Similarity3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25492() { let _ = &mk::<Similarity3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25493() { let _ = &mk::<Similarity3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25494() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25495() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25496() { let _ = mk::<Similarity3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25497() { let _ = mk::<Similarity3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25498() { let _ = &mk::<Similarity3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25499() { let _ = &mk::<Similarity3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25500() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25501() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25502() { let _ = mk::<Similarity3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25503() { let _ = mk::<Similarity3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25504() { let _ = &mk::<Similarity3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25505() { let _ = &mk::<Similarity3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25506() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25507() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25508() { let _ = mk::<Similarity3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25509() { let _ = mk::<Similarity3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25510() { let _ = &mk::<Similarity3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25511() { let _ = &mk::<Similarity3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p25512() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25513() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p25514() { let _ = mk::<Similarity3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p25515() { let _ = mk::<Similarity3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p25516() { let _: Transform3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25517() { let _: Transform3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25518() { let _ = mk::<Similarity3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25519() { let _ = mk::<Similarity3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25520() { let _ = &mk::<Similarity3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25521() { let _ = &mk::<Similarity3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25522() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25523() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25524() { let _ = mk::<Similarity3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25525() { let _ = mk::<Similarity3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25526() { let _ = &mk::<Similarity3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25527() { let _ = &mk::<Similarity3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25528() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25529() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25530() { let _ = mk::<Similarity3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25531() { let _ = mk::<Similarity3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25532() { let _ = &mk::<Similarity3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25533() { let _ = &mk::<Similarity3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25534() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25535() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25536() { let _ = mk::<Similarity3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25537() { let _ = mk::<Similarity3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25538() { let _ = &mk::<Similarity3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25539() { let _ = &mk::<Similarity3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p25540() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25541() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p25542() { let _ = mk::<Similarity3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p25543() { let _ = mk::<Similarity3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p25544() { let _: Perspective3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25545() { let _: Perspective3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25546() { let _ = mk::<Similarity3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25547() { let _ = mk::<Similarity3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25548() { let _ = &mk::<Similarity3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25549() { let _ = &mk::<Similarity3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25550() { let mut x = mk::<Similarity3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25551() { let mut x = mk::<Similarity3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25552() { let _ = mk::<Similarity3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25553() { let _ = mk::<Similarity3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25554() { let _ = &mk::<Similarity3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25555() { let _ = &mk::<Similarity3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25556() { let mut x = mk::<Similarity3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25557() { let mut x = mk::<Similarity3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25558() { let _ = mk::<Similarity3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25559() { let _ = mk::<Similarity3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25560() { let _ = &mk::<Similarity3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25561() { let _ = &mk::<Similarity3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25562() { let mut x = mk::<Similarity3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25563() { let mut x = mk::<Similarity3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25564() { let _ = mk::<Similarity3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25565() { let _ = mk::<Similarity3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25566() { let _ = &mk::<Similarity3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25567() { let _ = &mk::<Similarity3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p25568() { let mut x = mk::<Similarity3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25569() { let mut x = mk::<Similarity3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p25570() { let _ = mk::<Similarity3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p25571() { let _ = mk::<Similarity3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p25572() { let _: Orthographic3<f64> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25573() { let _: Orthographic3<f32> = mk::<Similarity3<f64>>(); } // reject no-implicit-conversion
fn p25574() { let _ = !mk::<Similarity3<f64>>(); } // reject negation
fn p25575() { let _ = !&mk::<Similarity3<f64>>(); } // reject negation
fn p25576() { let _ = mk::<Transform3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25577() { let _ = mk::<Transform3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25578() { let _ = &mk::<Transform3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25579() { let _ = &mk::<Transform3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25580() { let mut x = mk::<Transform3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25581() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25582() { let _ = mk::<Transform3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25583() { let _ = mk::<Transform3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25584() { let _ = &mk::<Transform3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25585() { let _ = &mk::<Transform3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25586() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25587() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25588() { let _: Vector3<f64> = mk::<Transform3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p25589() { let _ = mk::<Transform3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p25590() { let _ = mk::<Transform3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p25591() { let _: Vector3<f64> = mk::<Transform3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p25592() { let _ = mk::<Transform3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p25593() { let _ = mk::<Transform3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p25594() { let _: Vector3<f64> = &mk::<Transform3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p25595() { let _ = &mk::<Transform3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p25596() { let _ = &mk::<Transform3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p25597() { let _: Vector3<f64> = &mk::<Transform3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p25598() { let _ = &mk::<Transform3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p25599() { let _ = &mk::<Transform3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p25600() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25601() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25602() { let _ = mk::<Transform3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25603() { let _ = mk::<Transform3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25604() { let _ = &mk::<Transform3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25605() { let _ = &mk::<Transform3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25606() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25607() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25608() { let _ = mk::<Transform3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25609() { let _ = mk::<Transform3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25610() { let _ = &mk::<Transform3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25611() { let _ = &mk::<Transform3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p25612() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25613() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p25614() { let _ = mk::<Transform3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p25615() { let _ = mk::<Transform3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p25616() { let _: Vector3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25617() { let _: Vector3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25618() { let _ = mk::<Transform3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25619() { let _ = mk::<Transform3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25620() { let _ = &mk::<Transform3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25621() { let _ = &mk::<Transform3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25622() { let mut x = mk::<Transform3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25623() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25624() { let _ = mk::<Transform3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25625() { let _ = mk::<Transform3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25626() { let _ = &mk::<Transform3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25627() { let _ = &mk::<Transform3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25628() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25629() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25630() { let _ = mk::<Transform3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25631() { let _ = mk::<Transform3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25632() { let _ = &mk::<Transform3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25633() { let _ = &mk::<Transform3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25634() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25635() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25636() { let _ = mk::<Transform3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25637() { let _ = mk::<Transform3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25638() { let _ = &mk::<Transform3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25639() { let _ = &mk::<Transform3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25640() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25641() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25642() { let _ = mk::<Transform3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25643() { let _ = mk::<Transform3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25644() { let _ = &mk::<Transform3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25645() { let _ = &mk::<Transform3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p25646() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25647() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p25648() { let _ = mk::<Transform3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p25649() { let _ = mk::<Transform3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p25650() { let _: Vector4<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25651() { let _: Vector4<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25652() { let _ = mk::<Transform3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p25653() { let _ = mk::<Transform3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25654() { let _ = &mk::<Transform3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p25655() { let _ = &mk::<Transform3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25656() { let mut x = mk::<Transform3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25657() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25658() { let _ = mk::<Transform3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p25659() { let _ = mk::<Transform3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25660() { let _ = &mk::<Transform3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p25661() { let _ = &mk::<Transform3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25662() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25663() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25664() { let _: Point3<f64> = mk::<Transform3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p25665() { let _ = mk::<Transform3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p25666() { let _ = mk::<Transform3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p25667() { let _: Point3<f64> = mk::<Transform3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p25668() { let _ = mk::<Transform3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p25669() { let _ = mk::<Transform3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p25670() { let _: Point3<f64> = &mk::<Transform3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p25671() { let _ = &mk::<Transform3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p25672() { let _ = &mk::<Transform3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p25673() { let _: Point3<f64> = &mk::<Transform3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p25674() { let _ = &mk::<Transform3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p25675() { let _ = &mk::<Transform3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p25676() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25677() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25678() { let _ = mk::<Transform3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p25679() { let _ = mk::<Transform3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25680() { let _ = &mk::<Transform3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p25681() { let _ = &mk::<Transform3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25682() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25683() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25684() { let _ = mk::<Transform3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p25685() { let _ = mk::<Transform3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25686() { let _ = &mk::<Transform3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p25687() { let _ = &mk::<Transform3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p25688() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25689() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p25690() { let _ = mk::<Transform3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p25691() { let _ = mk::<Transform3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p25692() { let _: Point3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25693() { let _: Point3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25694() { let _ = mk::<Transform3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25695() { let _ = mk::<Transform3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25696() { let _ = &mk::<Transform3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25697() { let _ = &mk::<Transform3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25698() { let mut x = mk::<Transform3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25699() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25700() { let _ = mk::<Transform3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25701() { let _ = mk::<Transform3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25702() { let _ = &mk::<Transform3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25703() { let _ = &mk::<Transform3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25704() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25705() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25706() { let _ = mk::<Transform3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25707() { let _ = mk::<Transform3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25708() { let _ = &mk::<Transform3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25709() { let _ = &mk::<Transform3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25710() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25711() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25712() { let _ = mk::<Transform3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25713() { let _ = mk::<Transform3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25714() { let _ = &mk::<Transform3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25715() { let _ = &mk::<Transform3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25716() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25717() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25718() { let _ = mk::<Transform3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25719() { let _ = mk::<Transform3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25720() { let _ = &mk::<Transform3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25721() { let _ = &mk::<Transform3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p25722() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25723() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p25724() { let _ = mk::<Transform3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p25725() { let _ = mk::<Transform3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p25726() { let _: Matrix3x3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25727() { let _: Matrix3x3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25728() { let _ = mk::<Transform3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25729() { let _ = mk::<Transform3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25730() { let _ = &mk::<Transform3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25731() { let _ = &mk::<Transform3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25732() { let mut x = mk::<Transform3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25733() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25734() { let _ = mk::<Transform3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25735() { let _ = mk::<Transform3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25736() { let _ = &mk::<Transform3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25737() { let _ = &mk::<Transform3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25738() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25739() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25740() { let _ = mk::<Transform3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25741() { let _ = mk::<Transform3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25742() { let _ = &mk::<Transform3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25743() { let _ = &mk::<Transform3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25744() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25745() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25746() { let _ = mk::<Transform3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25747() { let _ = mk::<Transform3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25748() { let _ = &mk::<Transform3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25749() { let _ = &mk::<Transform3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25750() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25751() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25752() { let _ = mk::<Transform3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25753() { let _ = mk::<Transform3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25754() { let _ = &mk::<Transform3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25755() { let _ = &mk::<Transform3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p25756() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25757() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p25758() { let _ = mk::<Transform3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p25759() { let _ = mk::<Transform3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p25760() { let _: Matrix4x4<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25761() { let _: Matrix4x4<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25762() { let _ = mk::<Transform3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25763() { let _ = mk::<Transform3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25764() { let _ = &mk::<Transform3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25765() { let _ = &mk::<Transform3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25766() { let mut x = mk::<Transform3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25767() { let mut x = mk::<Transform3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25768() { let _ = mk::<Transform3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25769() { let _ = mk::<Transform3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25770() { let _ = &mk::<Transform3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25771() { let _ = &mk::<Transform3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25772() { let mut x = mk::<Transform3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25773() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25774() { let _ = mk::<Transform3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25775() { let _ = mk::<Transform3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25776() { let _ = &mk::<Transform3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25777() { let _ = &mk::<Transform3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25778() { let mut x = mk::<Transform3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25779() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25780() { let _ = mk::<Transform3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25781() { let _ = mk::<Transform3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25782() { let _ = &mk::<Transform3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25783() { let _ = &mk::<Transform3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25784() { let mut x = mk::<Transform3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25785() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25786() { let _ = mk::<Transform3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25787() { let _ = mk::<Transform3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25788() { let _ = &mk::<Transform3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25789() { let _ = &mk::<Transform3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p25790() { let mut x = mk::<Transform3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25791() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p25792() { let _ = mk::<Transform3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p25793() { let _ = mk::<Transform3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p25794() { let _: RowVector3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25795() { let _: RowVector3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25796() { let _ = mk::<Transform3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25797() { let _ = mk::<Transform3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25798() { let _ = &mk::<Transform3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25799() { let _ = &mk::<Transform3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25800() { let mut x = mk::<Transform3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25801() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25802() { let _ = mk::<Transform3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25803() { let _ = mk::<Transform3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25804() { let _ = &mk::<Transform3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25805() { let _ = &mk::<Transform3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25806() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25807() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25808() { let _ = mk::<Transform3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25809() { let _ = mk::<Transform3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25810() { let _ = &mk::<Transform3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25811() { let _ = &mk::<Transform3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25812() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25813() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25814() { let _ = mk::<Transform3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25815() { let _ = mk::<Transform3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25816() { let _ = &mk::<Transform3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25817() { let _ = &mk::<Transform3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25818() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25819() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25820() { let _ = mk::<Transform3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25821() { let _ = mk::<Transform3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25822() { let _ = &mk::<Transform3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25823() { let _ = &mk::<Transform3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p25824() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25825() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p25826() { let _ = mk::<Transform3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p25827() { let _ = mk::<Transform3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p25828() { let _: Quaternion<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25829() { let _: Quaternion<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25830() { let _ = mk::<Transform3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p25831() { let _ = mk::<Transform3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25832() { let _ = &mk::<Transform3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p25833() { let _ = &mk::<Transform3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25834() { let mut x = mk::<Transform3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25835() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25836() { let _ = mk::<Transform3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p25837() { let _ = mk::<Transform3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25838() { let _ = &mk::<Transform3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p25839() { let _ = &mk::<Transform3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25840() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25841() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25842() { let _ = mk::<Transform3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p25843() { let _ = mk::<Transform3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25844() { let _ = &mk::<Transform3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p25845() { let _ = &mk::<Transform3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25846() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25847() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25848() { let _ = mk::<Transform3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p25849() { let _ = mk::<Transform3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25850() { let _ = &mk::<Transform3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p25851() { let _ = &mk::<Transform3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25852() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25853() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25854() { let _ = mk::<Transform3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p25855() { let _ = mk::<Transform3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25856() { let _ = &mk::<Transform3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p25857() { let _ = &mk::<Transform3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p25858() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25859() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p25860() { let _ = mk::<Transform3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p25861() { let _ = mk::<Transform3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p25862() { let _: Complex<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25863() { let _: Complex<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25864() { let _ = mk::<Transform3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p25865() { let _ = mk::<Transform3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25866() { let _ = &mk::<Transform3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p25867() { let _ = &mk::<Transform3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25868() { let mut x = mk::<Transform3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25869() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25870() { let _ = mk::<Transform3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p25871() { let _ = mk::<Transform3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25872() { let _ = &mk::<Transform3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p25873() { let _ = &mk::<Transform3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25874() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25875() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25876() { let _ = mk::<Transform3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p25877() { let _ = mk::<Transform3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25878() { let _ = &mk::<Transform3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p25879() { let _ = &mk::<Transform3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25880() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25881() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25882() { let _ = mk::<Transform3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p25883() { let _ = mk::<Transform3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25884() { let _ = &mk::<Transform3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p25885() { let _ = &mk::<Transform3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25886() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25887() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25888() { let _ = mk::<Transform3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p25889() { let _ = mk::<Transform3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25890() { let _ = &mk::<Transform3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p25891() { let _ = &mk::<Transform3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p25892() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25893() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p25894() { let _ = mk::<Transform3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p25895() { let _ = mk::<Transform3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p25896() { let _: Radians<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25897() { let _: Radians<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25898() { let _ = mk::<Transform3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25899() { let _ = mk::<Transform3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25900() { let _ = &mk::<Transform3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25901() { let _ = &mk::<Transform3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25902() { let mut x = mk::<Transform3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25903() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25904() { let _ = mk::<Transform3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25905() { let _ = mk::<Transform3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25906() { let _ = &mk::<Transform3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25907() { let _ = &mk::<Transform3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25908() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25909() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25910() { let _ = mk::<Transform3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25911() { let _ = mk::<Transform3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25912() { let _ = &mk::<Transform3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25913() { let _ = &mk::<Transform3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25914() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25915() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25916() { let _ = mk::<Transform3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25917() { let _ = mk::<Transform3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25918() { let _ = &mk::<Transform3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25919() { let _ = &mk::<Transform3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25920() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25921() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25922() { let _ = mk::<Transform3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25923() { let _ = mk::<Transform3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25924() { let _ = &mk::<Transform3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25925() { let _ = &mk::<Transform3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p25926() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25927() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p25928() { let _ = mk::<Transform3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p25929() { let _ = mk::<Transform3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p25930() { let _: Degrees<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25931() { let _: Degrees<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25932() { let _ = mk::<Transform3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p25933() { let _ = mk::<Transform3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p25934() { let _ = &mk::<Transform3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p25935() { let _ = &mk::<Transform3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p25936() { let mut x = mk::<Transform3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p25937() { let mut x = mk::<Transform3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p25938() { let _ = mk::<Transform3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p25939() { let _ = mk::<Transform3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p25940() { let _ = &mk::<Transform3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p25941() { let _ = &mk::<Transform3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p25942() { let mut x = mk::<Transform3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p25943() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p25944() { let _ = mk::<Transform3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p25945() { let _ = mk::<Transform3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p25946() { let _ = &mk::<Transform3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p25947() { let _ = &mk::<Transform3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p25948() { let mut x = mk::<Transform3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p25949() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p25950() { let _ = mk::<Transform3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p25951() { let _ = mk::<Transform3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p25952() { let _ = &mk::<Transform3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p25953() { let _ = &mk::<Transform3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p25954() { let mut x = mk::<Transform3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p25955() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p25956() { let _ = mk::<Transform3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p25957() { let _ = mk::<Transform3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p25958() { let _ = &mk::<Transform3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p25959() { let _ = &mk::<Transform3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p25960() { let mut x = mk::<Transform3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p25961() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p25962() { let _ = mk::<Transform3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p25963() { let _ = mk::<Transform3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p25964() { let _: f64 = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25965() { let _: f32 = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25966() { let _ = mk::<Transform3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25967() { let _ = mk::<Transform3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25968() { let _ = &mk::<Transform3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25969() { let _ = &mk::<Transform3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25970() { let mut x = mk::<Transform3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25971() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25972() { let _ = mk::<Transform3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25973() { let _ = mk::<Transform3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25974() { let _ = &mk::<Transform3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25975() { let _ = &mk::<Transform3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25976() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25977() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25978() { let _ = mk::<Transform3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25979() { let _ = mk::<Transform3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25980() { let _ = &mk::<Transform3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25981() { let _ = &mk::<Transform3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25982() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25983() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25984() { let _ = mk::<Transform3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25985() { let _ = mk::<Transform3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25986() { let _ = &mk::<Transform3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25987() { let _ = &mk::<Transform3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25988() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25989() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25990() { let _ = mk::<Transform3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25991() { let _ = mk::<Transform3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25992() { let _ = &mk::<Transform3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25993() { let _ = &mk::<Transform3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p25994() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25995() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p25996() { let _ = mk::<Transform3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p25997() { let _ = mk::<Transform3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p25998() { let _: Euler<Radians<f64>> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p25999() { let _: Euler<Radians<f32>> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26000() { let _ = mk::<Transform3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26001() { let _ = mk::<Transform3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26002() { let _ = &mk::<Transform3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26003() { let _ = &mk::<Transform3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26004() { let mut x = mk::<Transform3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26005() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26006() { let _ = mk::<Transform3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26007() { let _ = mk::<Transform3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26008() { let _ = &mk::<Transform3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26009() { let _ = &mk::<Transform3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26010() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26011() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26012() { let _ = mk::<Transform3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26013() { let _ = mk::<Transform3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26014() { let _ = &mk::<Transform3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26015() { let _ = &mk::<Transform3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26016() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26017() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26018() { let _ = mk::<Transform3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26019() { let _ = mk::<Transform3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26020() { let _ = &mk::<Transform3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26021() { let _ = &mk::<Transform3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26022() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26023() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26024() { let _ = mk::<Transform3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p26025() { let _ = mk::<Transform3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p26026() { let _: Unit<Vector3<f64>> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26027() { let _: Unit<Vector3<f32>> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26028() { let _ = mk::<Transform3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26029() { let _ = mk::<Transform3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26030() { let _ = &mk::<Transform3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26031() { let _ = &mk::<Transform3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26032() { let mut x = mk::<Transform3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26033() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26034() { let _ = mk::<Transform3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26035() { let _ = mk::<Transform3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26036() { let _ = &mk::<Transform3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26037() { let _ = &mk::<Transform3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26038() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26039() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26040() { let _ = mk::<Transform3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26041() { let _ = mk::<Transform3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26042() { let _ = &mk::<Transform3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26043() { let _ = &mk::<Transform3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26044() { let mut x = mk::<Transform3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26045() { let mut x = mk::<Transform3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26046() { let _ = mk::<Transform3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26047() { let _ = mk::<Transform3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26048() { let _ = &mk::<Transform3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26049() { let _ = &mk::<Transform3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26050() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26051() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26052() { let _ = mk::<Transform3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26053() { let _ = mk::<Transform3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26054() { let _ = &mk::<Transform3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26055() { let _ = &mk::<Transform3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26056() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26057() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26058() { let _ = mk::<Transform3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p26059() { let _ = mk::<Transform3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p26060() { let _: Unit<Quaternion<f64>> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26061() { let _: Unit<Quaternion<f32>> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26062() { let _ = mk::<Transform3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26063() { let _ = mk::<Transform3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26064() { let _ = &mk::<Transform3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26065() { let _ = &mk::<Transform3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26066() { let mut x = mk::<Transform3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26067() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26068() { let _ = mk::<Transform3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26069() { let _ = mk::<Transform3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26070() { let _ = &mk::<Transform3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26071() { let _ = &mk::<Transform3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26072() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26073() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26074() { let _ = mk::<Transform3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26075() { let _ = mk::<Transform3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26076() { let _ = &mk::<Transform3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26077() { let _ = &mk::<Transform3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26078() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26079() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26080() { let _ = mk::<Transform3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26081() { let _ = mk::<Transform3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26082() { let _ = &mk::<Transform3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26083() { let _ = &mk::<Transform3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26084() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26085() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26086() { let _ = mk::<Transform3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p26087() { let _ = mk::<Transform3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p26088() { let _: Rotation3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26089() { let _: Rotation3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26090() { let _ = mk::<Transform3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26091() { let _ = mk::<Transform3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26092() { let _ = &mk::<Transform3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26093() { let _ = &mk::<Transform3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26094() { let mut x = mk::<Transform3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26095() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26096() { let _ = mk::<Transform3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26097() { let _ = mk::<Transform3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26098() { let _ = &mk::<Transform3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26099() { let _ = &mk::<Transform3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26100() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26101() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26102() { let _ = mk::<Transform3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26103() { let _ = mk::<Transform3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26104() { let _ = &mk::<Transform3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26105() { let _ = &mk::<Transform3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26106() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26107() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26108() { let _ = mk::<Transform3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26109() { let _ = mk::<Transform3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26110() { let _ = &mk::<Transform3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26111() { let _ = &mk::<Transform3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26112() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26113() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26114() { let _ = mk::<Transform3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p26115() { let _ = mk::<Transform3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p26116() { let _: Translation3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26117() { let _: Translation3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26118() { let _ = mk::<Transform3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26119() { let _ = mk::<Transform3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26120() { let _ = &mk::<Transform3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26121() { let _ = &mk::<Transform3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26122() { let mut x = mk::<Transform3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26123() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26124() { let _ = mk::<Transform3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26125() { let _ = mk::<Transform3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26126() { let _ = &mk::<Transform3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26127() { let _ = &mk::<Transform3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26128() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26129() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26130() { let _ = mk::<Transform3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26131() { let _ = mk::<Transform3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26132() { let _ = &mk::<Transform3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26133() { let _ = &mk::<Transform3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26134() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26135() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26136() { let _ = mk::<Transform3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26137() { let _ = mk::<Transform3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26138() { let _ = &mk::<Transform3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26139() { let _ = &mk::<Transform3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26140() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26141() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26142() { let _ = mk::<Transform3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p26143() { let _ = mk::<Transform3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p26144() { let _: Scale3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26145() { let _: Scale3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26146() { let _ = mk::<Transform3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26147() { let _ = mk::<Transform3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26148() { let _ = &mk::<Transform3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26149() { let _ = &mk::<Transform3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26150() { let mut x = mk::<Transform3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26151() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26152() { let _ = mk::<Transform3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26153() { let _ = mk::<Transform3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26154() { let _ = &mk::<Transform3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26155() { let _ = &mk::<Transform3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26156() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26157() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26158() { let _ = mk::<Transform3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26159() { let _ = mk::<Transform3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26160() { let _ = &mk::<Transform3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26161() { let _ = &mk::<Transform3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26162() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26163() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26164() { let _ = mk::<Transform3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26165() { let _ = mk::<Transform3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26166() { let _ = &mk::<Transform3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26167() { let _ = &mk::<Transform3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26168() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26169() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26170() { let _ = mk::<Transform3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p26171() { let _ = mk::<Transform3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p26172() { let _: Shear3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26173() { let _: Shear3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26174() { let _ = mk::<Transform3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26175() { let _ = mk::<Transform3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26176() { let _ = &mk::<Transform3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26177() { let _ = &mk::<Transform3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26178() { let mut x = mk::<Transform3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26179() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26180() { let _ = mk::<Transform3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26181() { let _ = mk::<Transform3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26182() { let _ = &mk::<Transform3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26183() { let _ = &mk::<Transform3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26184() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26185() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26186() { let _ = mk::<Transform3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26187() { let _ = mk::<Transform3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26188() { let _ = &mk::<Transform3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26189() { let _ = &mk::<Transform3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26190() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26191() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26192() { let _ = mk::<Transform3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26193() { let _ = mk::<Transform3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26194() { let _ = &mk::<Transform3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26195() { let _ = &mk::<Transform3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26196() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26197() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26198() { let _ = mk::<Transform3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p26199() { let _ = mk::<Transform3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p26200() { let _: Reflection3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26201() { let _: Reflection3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26202() { let _ = mk::<Transform3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26203() { let _ = mk::<Transform3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26204() { let _ = &mk::<Transform3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26205() { let _ = &mk::<Transform3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26206() { let mut x = mk::<Transform3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26207() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26208() { let _ = mk::<Transform3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26209() { let _ = mk::<Transform3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26210() { let _ = &mk::<Transform3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26211() { let _ = &mk::<Transform3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26212() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26213() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26214() { let _ = mk::<Transform3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26215() { let _ = mk::<Transform3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26216() { let _ = &mk::<Transform3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26217() { let _ = &mk::<Transform3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26218() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26219() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26220() { let _ = mk::<Transform3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26221() { let _ = mk::<Transform3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26222() { let _ = &mk::<Transform3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26223() { let _ = &mk::<Transform3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26224() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26225() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26226() { let _ = mk::<Transform3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p26227() { let _ = mk::<Transform3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p26228() { let _: Isometry3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26229() { let _: Isometry3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26230() { let _ = mk::<Transform3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26231() { let _ = mk::<Transform3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26232() { let _ = &mk::<Transform3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26233() { let _ = &mk::<Transform3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26234() { let mut x = mk::<Transform3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26235() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26236() { let _ = mk::<Transform3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26237() { let _ = mk::<Transform3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26238() { let _ = &mk::<Transform3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26239() { let _ = &mk::<Transform3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26240() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26241() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26242() { let _ = mk::<Transform3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26243() { let _ = mk::<Transform3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26244() { let _ = &mk::<Transform3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26245() { let _ = &mk::<Transform3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26246() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26247() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26248() { let _ = mk::<Transform3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26249() { let _ = mk::<Transform3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26250() { let _ = &mk::<Transform3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26251() { let _ = &mk::<Transform3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p26252() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26253() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p26254() { let _ = mk::<Transform3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p26255() { let _ = mk::<Transform3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p26256() { let _: Similarity3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26257() { let _: Similarity3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26258() { let _ = mk::<Transform3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26259() { let _ = mk::<Transform3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26260() { let _ = &mk::<Transform3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26261() { let _ = &mk::<Transform3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26262() { let mut x = mk::<Transform3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26263() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26264() { let _ = mk::<Transform3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26265() { let _ = mk::<Transform3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26266() { let _ = &mk::<Transform3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26267() { let _ = &mk::<Transform3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26268() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26269() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26270() { let _: Transform3<f64> = mk::<Transform3<f64>>() * mk::<Transform3<f64>>(); } // accept operator-kinds
fn p26271() { let _ = mk::<Transform3<f64>>() * mk::<Transform3<f32>>(); } // reject operator-precision
fn p26272() { let _ = mk::<Transform3<f32>>() * mk::<Transform3<f64>>(); } // reject operator-precision
fn p26273() { let _: Transform3<f64> = mk::<Transform3<f64>>() * &mk::<Transform3<f64>>(); } // accept operator-kinds
fn p26274() { let _ = mk::<Transform3<f64>>() * &mk::<Transform3<f32>>(); } // reject operator-precision
fn p26275() { let _ = mk::<Transform3<f32>>() * &mk::<Transform3<f64>>(); } // reject operator-precision
fn p26276() { let _: Transform3<f64> = &mk::<Transform3<f64>>() * mk::<Transform3<f64>>(); } // accept operator-kinds
fn p26277() { let _ = &mk::<Transform3<f64>>() * mk::<Transform3<f32>>(); } // reject operator-precision
fn p26278() { let _ = &mk::<Transform3<f32>>() * mk::<Transform3<f64>>(); } // reject operator-precision
fn p26279() { let _: Transform3<f64> = &mk::<Transform3<f64>>() * &mk::<Transform3<f64>>(); } // accept operator-kinds
fn p26280() { let _ = &mk::<Transform3<f64>>() * &mk::<Transform3<f32>>(); } // reject operator-precision
fn p26281() { let _ = &mk::<Transform3<f32>>() * &mk::<Transform3<f64>>(); } // reject operator-precision
fn p26282() { let _ = mk::<Transform3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26283() { let _ = mk::<Transform3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26284() { let _ = &mk::<Transform3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26285() { let _ = &mk::<Transform3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26286() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26287() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26288() { let _ = mk::<Transform3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26289() { let _ = mk::<Transform3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26290() { let _ = &mk::<Transform3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26291() { let _ = &mk::<Transform3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p26292() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26293() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p26294() { let _ = mk::<Transform3<f64>>() == mk::<Transform3<f64>>(); } // accept equality-kinds
fn p26295() { let _: Transform3<f64> = mk::<Transform3<f64>>(); } // accept no-implicit-conversion
fn p26296() { let _: Transform3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26297() { let _ = mk::<Transform3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26298() { let _ = mk::<Transform3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26299() { let _ = &mk::<Transform3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26300() { let _ = &mk::<Transform3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26301() { let mut x = mk::<Transform3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26302() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26303() { let _ = mk::<Transform3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26304() { let _ = mk::<Transform3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26305() { let _ = &mk::<Transform3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26306() { let _ = &mk::<Transform3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26307() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26308() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26309() { let _ = mk::<Transform3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26310() { let _ = mk::<Transform3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26311() { let _ = &mk::<Transform3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26312() { let _ = &mk::<Transform3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26313() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26314() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26315() { let _ = mk::<Transform3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26316() { let _ = mk::<Transform3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26317() { let _ = &mk::<Transform3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26318() { let _ = &mk::<Transform3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p26319() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26320() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p26321() { let _ = mk::<Transform3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p26322() { let _ = mk::<Transform3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p26323() { let _: Perspective3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26324() { let _: Perspective3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26325() { let _ = mk::<Transform3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26326() { let _ = mk::<Transform3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26327() { let _ = &mk::<Transform3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26328() { let _ = &mk::<Transform3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26329() { let mut x = mk::<Transform3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26330() { let mut x = mk::<Transform3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26331() { let _ = mk::<Transform3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26332() { let _ = mk::<Transform3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26333() { let _ = &mk::<Transform3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26334() { let _ = &mk::<Transform3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26335() { let mut x = mk::<Transform3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26336() { let mut x = mk::<Transform3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26337() { let _ = mk::<Transform3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26338() { let _ = mk::<Transform3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26339() { let _ = &mk::<Transform3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26340() { let _ = &mk::<Transform3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26341() { let mut x = mk::<Transform3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26342() { let mut x = mk::<Transform3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26343() { let _ = mk::<Transform3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26344() { let _ = mk::<Transform3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26345() { let _ = &mk::<Transform3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26346() { let _ = &mk::<Transform3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p26347() { let mut x = mk::<Transform3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26348() { let mut x = mk::<Transform3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p26349() { let _ = mk::<Transform3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p26350() { let _ = mk::<Transform3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p26351() { let _: Orthographic3<f64> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26352() { let _: Orthographic3<f32> = mk::<Transform3<f64>>(); } // reject no-implicit-conversion
fn p26353() { let _ = !mk::<Transform3<f64>>(); } // reject negation
fn p26354() { let _ = !&mk::<Transform3<f64>>(); } // reject negation
fn p26355() { let _ = mk::<Perspective3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26356() { let _ = mk::<Perspective3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26357() { let _ = &mk::<Perspective3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26358() { let _ = &mk::<Perspective3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26359() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26360() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26361() { let _ = mk::<Perspective3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26362() { let _ = mk::<Perspective3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26363() { let _ = &mk::<Perspective3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26364() { let _ = &mk::<Perspective3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26365() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26366() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26367() { let _: Vector3<f64> = mk::<Perspective3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p26368() { let _ = mk::<Perspective3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p26369() { let _ = mk::<Perspective3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p26370() { let _: Vector3<f64> = mk::<Perspective3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p26371() { let _ = mk::<Perspective3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p26372() { let _ = mk::<Perspective3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p26373() { let _: Vector3<f64> = &mk::<Perspective3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p26374() { let _ = &mk::<Perspective3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p26375() { let _ = &mk::<Perspective3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p26376() { let _: Vector3<f64> = &mk::<Perspective3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p26377() { let _ = &mk::<Perspective3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p26378() { let _ = &mk::<Perspective3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p26379() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26380() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26381() { let _ = mk::<Perspective3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26382() { let _ = mk::<Perspective3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26383() { let _ = &mk::<Perspective3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26384() { let _ = &mk::<Perspective3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26385() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26386() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26387() { let _ = mk::<Perspective3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26388() { let _ = mk::<Perspective3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26389() { let _ = &mk::<Perspective3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26390() { let _ = &mk::<Perspective3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p26391() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26392() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p26393() { let _ = mk::<Perspective3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p26394() { let _ = mk::<Perspective3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p26395() { let _: Vector3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26396() { let _: Vector3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26397() { let _ = mk::<Perspective3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26398() { let _ = mk::<Perspective3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26399() { let _ = &mk::<Perspective3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26400() { let _ = &mk::<Perspective3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26401() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26402() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26403() { let _ = mk::<Perspective3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26404() { let _ = mk::<Perspective3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26405() { let _ = &mk::<Perspective3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26406() { let _ = &mk::<Perspective3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26407() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26408() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26409() { let _ = mk::<Perspective3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26410() { let _ = mk::<Perspective3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26411() { let _ = &mk::<Perspective3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26412() { let _ = &mk::<Perspective3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26413() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26414() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26415() { let _ = mk::<Perspective3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26416() { let _ = mk::<Perspective3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26417() { let _ = &mk::<Perspective3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26418() { let _ = &mk::<Perspective3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26419() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26420() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26421() { let _ = mk::<Perspective3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26422() { let _ = mk::<Perspective3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26423() { let _ = &mk::<Perspective3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26424() { let _ = &mk::<Perspective3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p26425() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26426() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p26427() { let _ = mk::<Perspective3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p26428() { let _ = mk::<Perspective3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p26429() { let _: Vector4<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26430() { let _: Vector4<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26431() { let _ = mk::<Perspective3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p26432() { let _ = mk::<Perspective3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26433() { let _ = &mk::<Perspective3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p26434() { let _ = &mk::<Perspective3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26435() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26436() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26437() { let _ = mk::<Perspective3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p26438() { let _ = mk::<Perspective3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26439() { let _ = &mk::<Perspective3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p26440() { let _ = &mk::<Perspective3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26441() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26442() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26443() { let _: Point3<f64> = mk::<Perspective3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p26444() { let _ = mk::<Perspective3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p26445() { let _ = mk::<Perspective3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p26446() { let _: Point3<f64> = mk::<Perspective3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p26447() { let _ = mk::<Perspective3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p26448() { let _ = mk::<Perspective3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p26449() { let _: Point3<f64> = &mk::<Perspective3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p26450() { let _ = &mk::<Perspective3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p26451() { let _ = &mk::<Perspective3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p26452() { let _: Point3<f64> = &mk::<Perspective3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p26453() { let _ = &mk::<Perspective3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p26454() { let _ = &mk::<Perspective3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p26455() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26456() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26457() { let _ = mk::<Perspective3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p26458() { let _ = mk::<Perspective3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26459() { let _ = &mk::<Perspective3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p26460() { let _ = &mk::<Perspective3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26461() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26462() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26463() { let _ = mk::<Perspective3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p26464() { let _ = mk::<Perspective3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26465() { let _ = &mk::<Perspective3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p26466() { let _ = &mk::<Perspective3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p26467() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26468() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p26469() { let _ = mk::<Perspective3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p26470() { let _ = mk::<Perspective3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p26471() { let _: Point3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26472() { let _: Point3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26473() { let _ = mk::<Perspective3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26474() { let _ = mk::<Perspective3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26475() { let _ = &mk::<Perspective3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26476() { let _ = &mk::<Perspective3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26477() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26478() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26479() { let _ = mk::<Perspective3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26480() { let _ = mk::<Perspective3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26481() { let _ = &mk::<Perspective3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26482() { let _ = &mk::<Perspective3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26483() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26484() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26485() { let _ = mk::<Perspective3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26486() { let _ = mk::<Perspective3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26487() { let _ = &mk::<Perspective3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26488() { let _ = &mk::<Perspective3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26489() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26490() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26491() { let _ = mk::<Perspective3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26492() { let _ = mk::<Perspective3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26493() { let _ = &mk::<Perspective3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26494() { let _ = &mk::<Perspective3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26495() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26496() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26497() { let _ = mk::<Perspective3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26498() { let _ = mk::<Perspective3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26499() { let _ = &mk::<Perspective3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26500() { let _ = &mk::<Perspective3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p26501() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26502() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p26503() { let _ = mk::<Perspective3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p26504() { let _ = mk::<Perspective3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p26505() { let _: Matrix3x3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26506() { let _: Matrix3x3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26507() { let _ = mk::<Perspective3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26508() { let _ = mk::<Perspective3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26509() { let _ = &mk::<Perspective3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26510() { let _ = &mk::<Perspective3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26511() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26512() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26513() { let _ = mk::<Perspective3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26514() { let _ = mk::<Perspective3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26515() { let _ = &mk::<Perspective3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26516() { let _ = &mk::<Perspective3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26517() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26518() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26519() { let _ = mk::<Perspective3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26520() { let _ = mk::<Perspective3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26521() { let _ = &mk::<Perspective3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26522() { let _ = &mk::<Perspective3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26523() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26524() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26525() { let _ = mk::<Perspective3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26526() { let _ = mk::<Perspective3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26527() { let _ = &mk::<Perspective3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26528() { let _ = &mk::<Perspective3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26529() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26530() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26531() { let _ = mk::<Perspective3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26532() { let _ = mk::<Perspective3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26533() { let _ = &mk::<Perspective3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26534() { let _ = &mk::<Perspective3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p26535() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26536() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p26537() { let _ = mk::<Perspective3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p26538() { let _ = mk::<Perspective3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p26539() { let _: Matrix4x4<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26540() { let _: Matrix4x4<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26541() { let _ = mk::<Perspective3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26542() { let _ = mk::<Perspective3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26543() { let _ = &mk::<Perspective3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26544() { let _ = &mk::<Perspective3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26545() { let mut x = mk::<Perspective3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26546() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26547() { let _ = mk::<Perspective3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26548() { let _ = mk::<Perspective3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26549() { let _ = &mk::<Perspective3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26550() { let _ = &mk::<Perspective3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26551() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26552() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26553() { let _ = mk::<Perspective3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26554() { let _ = mk::<Perspective3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26555() { let _ = &mk::<Perspective3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26556() { let _ = &mk::<Perspective3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26557() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26558() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26559() { let _ = mk::<Perspective3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26560() { let _ = mk::<Perspective3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26561() { let _ = &mk::<Perspective3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26562() { let _ = &mk::<Perspective3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26563() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26564() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26565() { let _ = mk::<Perspective3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26566() { let _ = mk::<Perspective3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26567() { let _ = &mk::<Perspective3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26568() { let _ = &mk::<Perspective3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p26569() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26570() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p26571() { let _ = mk::<Perspective3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p26572() { let _ = mk::<Perspective3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p26573() { let _: RowVector3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26574() { let _: RowVector3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26575() { let _ = mk::<Perspective3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26576() { let _ = mk::<Perspective3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26577() { let _ = &mk::<Perspective3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26578() { let _ = &mk::<Perspective3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26579() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26580() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26581() { let _ = mk::<Perspective3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26582() { let _ = mk::<Perspective3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26583() { let _ = &mk::<Perspective3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26584() { let _ = &mk::<Perspective3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26585() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26586() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26587() { let _ = mk::<Perspective3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26588() { let _ = mk::<Perspective3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26589() { let _ = &mk::<Perspective3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26590() { let _ = &mk::<Perspective3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26591() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26592() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26593() { let _ = mk::<Perspective3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26594() { let _ = mk::<Perspective3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26595() { let _ = &mk::<Perspective3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26596() { let _ = &mk::<Perspective3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26597() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26598() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26599() { let _ = mk::<Perspective3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26600() { let _ = mk::<Perspective3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26601() { let _ = &mk::<Perspective3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26602() { let _ = &mk::<Perspective3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p26603() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26604() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p26605() { let _ = mk::<Perspective3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p26606() { let _ = mk::<Perspective3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p26607() { let _: Quaternion<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26608() { let _: Quaternion<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26609() { let _ = mk::<Perspective3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p26610() { let _ = mk::<Perspective3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26611() { let _ = &mk::<Perspective3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p26612() { let _ = &mk::<Perspective3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26613() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26614() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26615() { let _ = mk::<Perspective3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p26616() { let _ = mk::<Perspective3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26617() { let _ = &mk::<Perspective3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p26618() { let _ = &mk::<Perspective3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26619() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26620() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26621() { let _ = mk::<Perspective3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p26622() { let _ = mk::<Perspective3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26623() { let _ = &mk::<Perspective3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p26624() { let _ = &mk::<Perspective3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26625() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26626() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26627() { let _ = mk::<Perspective3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p26628() { let _ = mk::<Perspective3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26629() { let _ = &mk::<Perspective3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p26630() { let _ = &mk::<Perspective3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26631() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26632() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26633() { let _ = mk::<Perspective3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p26634() { let _ = mk::<Perspective3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26635() { let _ = &mk::<Perspective3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p26636() { let _ = &mk::<Perspective3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p26637() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26638() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p26639() { let _ = mk::<Perspective3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p26640() { let _ = mk::<Perspective3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p26641() { let _: Complex<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26642() { let _: Complex<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26643() { let _ = mk::<Perspective3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p26644() { let _ = mk::<Perspective3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26645() { let _ = &mk::<Perspective3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p26646() { let _ = &mk::<Perspective3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26647() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26648() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26649() { let _ = mk::<Perspective3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p26650() { let _ = mk::<Perspective3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26651() { let _ = &mk::<Perspective3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p26652() { let _ = &mk::<Perspective3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26653() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26654() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26655() { let _ = mk::<Perspective3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p26656() { let _ = mk::<Perspective3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26657() { let _ = &mk::<Perspective3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p26658() { let _ = &mk::<Perspective3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26659() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26660() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26661() { let _ = mk::<Perspective3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p26662() { let _ = mk::<Perspective3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26663() { let _ = &mk::<Perspective3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p26664() { let _ = &mk::<Perspective3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26665() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26666() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26667() { let _ = mk::<Perspective3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p26668() { let _ = mk::<Perspective3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26669() { let _ = &mk::<Perspective3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p26670() { let _ = &mk::<Perspective3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p26671() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26672() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p26673() { let _ = mk::<Perspective3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p26674() { let _ = mk::<Perspective3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p26675() { let _: Radians<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26676() { let _: Radians<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26677() { let _ = mk::<Perspective3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26678() { let _ = mk::<Perspective3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26679() { let _ = &mk::<Perspective3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26680() { let _ = &mk::<Perspective3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26681() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26682() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26683() { let _ = mk::<Perspective3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26684() { let _ = mk::<Perspective3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26685() { let _ = &mk::<Perspective3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26686() { let _ = &mk::<Perspective3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26687() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26688() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26689() { let _ = mk::<Perspective3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26690() { let _ = mk::<Perspective3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26691() { let _ = &mk::<Perspective3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26692() { let _ = &mk::<Perspective3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26693() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26694() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26695() { let _ = mk::<Perspective3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26696() { let _ = mk::<Perspective3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26697() { let _ = &mk::<Perspective3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26698() { let _ = &mk::<Perspective3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26699() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26700() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26701() { let _ = mk::<Perspective3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26702() { let _ = mk::<Perspective3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26703() { let _ = &mk::<Perspective3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26704() { let _ = &mk::<Perspective3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p26705() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26706() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p26707() { let _ = mk::<Perspective3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p26708() { let _ = mk::<Perspective3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p26709() { let _: Degrees<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26710() { let _: Degrees<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26711() { let _ = mk::<Perspective3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p26712() { let _ = mk::<Perspective3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p26713() { let _ = &mk::<Perspective3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p26714() { let _ = &mk::<Perspective3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p26715() { let mut x = mk::<Perspective3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p26716() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p26717() { let _ = mk::<Perspective3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p26718() { let _ = mk::<Perspective3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p26719() { let _ = &mk::<Perspective3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p26720() { let _ = &mk::<Perspective3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p26721() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p26722() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p26723() { let _ = mk::<Perspective3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p26724() { let _ = mk::<Perspective3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p26725() { let _ = &mk::<Perspective3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p26726() { let _ = &mk::<Perspective3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p26727() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p26728() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p26729() { let _ = mk::<Perspective3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p26730() { let _ = mk::<Perspective3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p26731() { let _ = &mk::<Perspective3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p26732() { let _ = &mk::<Perspective3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p26733() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p26734() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p26735() { let _ = mk::<Perspective3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p26736() { let _ = mk::<Perspective3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p26737() { let _ = &mk::<Perspective3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p26738() { let _ = &mk::<Perspective3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p26739() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p26740() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p26741() { let _ = mk::<Perspective3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p26742() { let _ = mk::<Perspective3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p26743() { let _: f64 = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26744() { let _: f32 = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26745() { let _ = mk::<Perspective3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26746() { let _ = mk::<Perspective3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26747() { let _ = &mk::<Perspective3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26748() { let _ = &mk::<Perspective3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26749() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26750() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26751() { let _ = mk::<Perspective3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26752() { let _ = mk::<Perspective3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26753() { let _ = &mk::<Perspective3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26754() { let _ = &mk::<Perspective3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26755() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26756() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26757() { let _ = mk::<Perspective3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26758() { let _ = mk::<Perspective3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26759() { let _ = &mk::<Perspective3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26760() { let _ = &mk::<Perspective3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26761() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26762() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26763() { let _ = mk::<Perspective3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26764() { let _ = mk::<Perspective3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26765() { let _ = &mk::<Perspective3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26766() { let _ = &mk::<Perspective3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26767() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26768() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26769() { let _ = mk::<Perspective3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26770() { let _ = mk::<Perspective3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26771() { let _ = &mk::<Perspective3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26772() { let _ = &mk::<Perspective3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p26773() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26774() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p26775() { let _ = mk::<Perspective3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p26776() { let _ = mk::<Perspective3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p26777() { let _: Euler<Radians<f64>> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26778() { let _: Euler<Radians<f32>> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26779() { let _ = mk::<Perspective3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26780() { let _ = mk::<Perspective3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26781() { let _ = &mk::<Perspective3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26782() { let _ = &mk::<Perspective3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26783() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26784() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26785() { let _ = mk::<Perspective3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26786() { let _ = mk::<Perspective3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26787() { let _ = &mk::<Perspective3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26788() { let _ = &mk::<Perspective3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26789() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26790() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26791() { let _ = mk::<Perspective3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26792() { let _ = mk::<Perspective3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26793() { let _ = &mk::<Perspective3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26794() { let _ = &mk::<Perspective3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26795() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26796() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26797() { let _ = mk::<Perspective3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26798() { let _ = mk::<Perspective3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26799() { let _ = &mk::<Perspective3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26800() { let _ = &mk::<Perspective3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p26801() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26802() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p26803() { let _ = mk::<Perspective3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p26804() { let _ = mk::<Perspective3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p26805() { let _: Unit<Vector3<f64>> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26806() { let _: Unit<Vector3<f32>> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26807() { let _ = mk::<Perspective3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26808() { let _ = mk::<Perspective3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26809() { let _ = &mk::<Perspective3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26810() { let _ = &mk::<Perspective3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26811() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26812() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26813() { let _ = mk::<Perspective3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26814() { let _ = mk::<Perspective3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26815() { let _ = &mk::<Perspective3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26816() { let _ = &mk::<Perspective3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26817() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26818() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26819() { let _ = mk::<Perspective3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26820() { let _ = mk::<Perspective3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26821() { let _ = &mk::<Perspective3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26822() { let _ = &mk::<Perspective3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26823() { let mut x = mk::<Perspective3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26824() { let mut x = mk::<Perspective3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26825() { let _ = mk::<Perspective3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26826() { let _ = mk::<Perspective3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26827() { let _ = &mk::<Perspective3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26828() { let _ = &mk::<Perspective3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26829() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26830() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26831() { let _ = mk::<Perspective3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26832() { let _ = mk::<Perspective3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26833() { let _ = &mk::<Perspective3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26834() { let _ = &mk::<Perspective3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p26835() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26836() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p26837() { let _ = mk::<Perspective3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p26838() { let _ = mk::<Perspective3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p26839() { let _: Unit<Quaternion<f64>> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26840() { let _: Unit<Quaternion<f32>> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26841() { let _ = mk::<Perspective3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26842() { let _ = mk::<Perspective3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26843() { let _ = &mk::<Perspective3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26844() { let _ = &mk::<Perspective3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26845() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26846() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26847() { let _ = mk::<Perspective3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26848() { let _ = mk::<Perspective3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26849() { let _ = &mk::<Perspective3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26850() { let _ = &mk::<Perspective3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26851() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26852() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26853() { let _ = mk::<Perspective3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26854() { let _ = mk::<Perspective3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26855() { let _ = &mk::<Perspective3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26856() { let _ = &mk::<Perspective3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26857() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26858() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26859() { let _ = mk::<Perspective3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26860() { let _ = mk::<Perspective3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26861() { let _ = &mk::<Perspective3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26862() { let _ = &mk::<Perspective3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p26863() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26864() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p26865() { let _ = mk::<Perspective3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p26866() { let _ = mk::<Perspective3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p26867() { let _: Rotation3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26868() { let _: Rotation3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26869() { let _ = mk::<Perspective3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26870() { let _ = mk::<Perspective3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26871() { let _ = &mk::<Perspective3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26872() { let _ = &mk::<Perspective3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26873() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26874() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26875() { let _ = mk::<Perspective3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26876() { let _ = mk::<Perspective3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26877() { let _ = &mk::<Perspective3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26878() { let _ = &mk::<Perspective3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26879() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26880() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26881() { let _ = mk::<Perspective3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26882() { let _ = mk::<Perspective3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26883() { let _ = &mk::<Perspective3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26884() { let _ = &mk::<Perspective3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26885() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26886() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26887() { let _ = mk::<Perspective3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26888() { let _ = mk::<Perspective3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26889() { let _ = &mk::<Perspective3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26890() { let _ = &mk::<Perspective3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p26891() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26892() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p26893() { let _ = mk::<Perspective3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p26894() { let _ = mk::<Perspective3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p26895() { let _: Translation3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26896() { let _: Translation3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26897() { let _ = mk::<Perspective3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26898() { let _ = mk::<Perspective3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26899() { let _ = &mk::<Perspective3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26900() { let _ = &mk::<Perspective3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26901() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26902() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26903() { let _ = mk::<Perspective3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26904() { let _ = mk::<Perspective3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26905() { let _ = &mk::<Perspective3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26906() { let _ = &mk::<Perspective3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26907() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26908() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26909() { let _ = mk::<Perspective3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26910() { let _ = mk::<Perspective3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26911() { let _ = &mk::<Perspective3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26912() { let _ = &mk::<Perspective3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26913() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26914() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26915() { let _ = mk::<Perspective3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26916() { let _ = mk::<Perspective3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26917() { let _ = &mk::<Perspective3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26918() { let _ = &mk::<Perspective3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p26919() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26920() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p26921() { let _ = mk::<Perspective3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p26922() { let _ = mk::<Perspective3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p26923() { let _: Scale3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26924() { let _: Scale3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26925() { let _ = mk::<Perspective3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26926() { let _ = mk::<Perspective3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26927() { let _ = &mk::<Perspective3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26928() { let _ = &mk::<Perspective3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26929() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26930() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26931() { let _ = mk::<Perspective3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26932() { let _ = mk::<Perspective3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26933() { let _ = &mk::<Perspective3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26934() { let _ = &mk::<Perspective3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26935() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26936() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26937() { let _ = mk::<Perspective3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26938() { let _ = mk::<Perspective3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26939() { let _ = &mk::<Perspective3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26940() { let _ = &mk::<Perspective3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26941() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26942() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26943() { let _ = mk::<Perspective3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26944() { let _ = mk::<Perspective3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26945() { let _ = &mk::<Perspective3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26946() { let _ = &mk::<Perspective3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p26947() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26948() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p26949() { let _ = mk::<Perspective3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p26950() { let _ = mk::<Perspective3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p26951() { let _: Shear3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26952() { let _: Shear3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26953() { let _ = mk::<Perspective3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26954() { let _ = mk::<Perspective3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26955() { let _ = &mk::<Perspective3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26956() { let _ = &mk::<Perspective3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26957() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26958() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26959() { let _ = mk::<Perspective3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26960() { let _ = mk::<Perspective3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26961() { let _ = &mk::<Perspective3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26962() { let _ = &mk::<Perspective3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26963() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26964() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26965() { let _ = mk::<Perspective3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26966() { let _ = mk::<Perspective3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26967() { let _ = &mk::<Perspective3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26968() { let _ = &mk::<Perspective3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26969() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26970() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26971() { let _ = mk::<Perspective3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26972() { let _ = mk::<Perspective3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26973() { let _ = &mk::<Perspective3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26974() { let _ = &mk::<Perspective3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p26975() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26976() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p26977() { let _ = mk::<Perspective3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p26978() { let _ = mk::<Perspective3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p26979() { let _: Reflection3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26980() { let _: Reflection3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p26981() { let _ = mk::<Perspective3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26982() { let _ = mk::<Perspective3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26983() { let _ = &mk::<Perspective3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26984() { let _ = &mk::<Perspective3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26985() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26986() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26987() { let _ = mk::<Perspective3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26988() { let _ = mk::<Perspective3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26989() { let _ = &mk::<Perspective3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26990() { let _ = &mk::<Perspective3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26991() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26992() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26993() { let _ = mk::<Perspective3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26994() { let _ = mk::<Perspective3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26995() { let _ = &mk::<Perspective3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26996() { let _ = &mk::<Perspective3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p26997() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26998() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p26999() { let _ = mk::<Perspective3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27000() { let _ = mk::<Perspective3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27001() { let _ = &mk::<Perspective3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27002() { let _ = &mk::<Perspective3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27003() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27004() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27005() { let _ = mk::<Perspective3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p27006() { let _ = mk::<Perspective3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p27007() { let _: Isometry3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27008() { let _: Isometry3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27009() { let _ = mk::<Perspective3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27010() { let _ = mk::<Perspective3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27011() { let _ = &mk::<Perspective3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27012() { let _ = &mk::<Perspective3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27013() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27014() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27015() { let _ = mk::<Perspective3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27016() { let _ = mk::<Perspective3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27017() { let _ = &mk::<Perspective3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27018() { let _ = &mk::<Perspective3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27019() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27020() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27021() { let _ = mk::<Perspective3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27022() { let _ = mk::<Perspective3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27023() { let _ = &mk::<Perspective3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27024() { let _ = &mk::<Perspective3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27025() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27026() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27027() { let _ = mk::<Perspective3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27028() { let _ = mk::<Perspective3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27029() { let _ = &mk::<Perspective3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27030() { let _ = &mk::<Perspective3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27031() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27032() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27033() { let _ = mk::<Perspective3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p27034() { let _ = mk::<Perspective3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p27035() { let _: Similarity3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27036() { let _: Similarity3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27037() { let _ = mk::<Perspective3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27038() { let _ = mk::<Perspective3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27039() { let _ = &mk::<Perspective3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27040() { let _ = &mk::<Perspective3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27041() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27042() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27043() { let _ = mk::<Perspective3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27044() { let _ = mk::<Perspective3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27045() { let _ = &mk::<Perspective3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27046() { let _ = &mk::<Perspective3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27047() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27048() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27049() { let _ = mk::<Perspective3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27050() { let _ = mk::<Perspective3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27051() { let _ = &mk::<Perspective3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27052() { let _ = &mk::<Perspective3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27053() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27054() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27055() { let _ = mk::<Perspective3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27056() { let _ = mk::<Perspective3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27057() { let _ = &mk::<Perspective3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27058() { let _ = &mk::<Perspective3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27059() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27060() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27061() { let _ = mk::<Perspective3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p27062() { let _ = mk::<Perspective3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p27063() { let _: Transform3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27064() { let _: Transform3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27065() { let _ = mk::<Perspective3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27066() { let _ = mk::<Perspective3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27067() { let _ = &mk::<Perspective3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27068() { let _ = &mk::<Perspective3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27069() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27070() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27071() { let _ = mk::<Perspective3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27072() { let _ = mk::<Perspective3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27073() { let _ = &mk::<Perspective3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27074() { let _ = &mk::<Perspective3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27075() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27076() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27077() { let _ = mk::<Perspective3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27078() { let _ = mk::<Perspective3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27079() { let _ = &mk::<Perspective3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27080() { let _ = &mk::<Perspective3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27081() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27082() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27083() { let _ = mk::<Perspective3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27084() { let _ = mk::<Perspective3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27085() { let _ = &mk::<Perspective3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27086() { let _ = &mk::<Perspective3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27087() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27088() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27089() { let _ = mk::<Perspective3<f64>>() == mk::<Perspective3<f64>>(); } // accept equality-kinds
fn p27090() { let _: Perspective3<f64> = mk::<Perspective3<f64>>(); } // accept no-implicit-conversion
fn p27091() { let _: Perspective3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27092() { let _ = mk::<Perspective3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27093() { let _ = mk::<Perspective3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27094() { let _ = &mk::<Perspective3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27095() { let _ = &mk::<Perspective3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27096() { let mut x = mk::<Perspective3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27097() { let mut x = mk::<Perspective3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27098() { let _ = mk::<Perspective3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27099() { let _ = mk::<Perspective3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27100() { let _ = &mk::<Perspective3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27101() { let _ = &mk::<Perspective3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27102() { let mut x = mk::<Perspective3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27103() { let mut x = mk::<Perspective3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27104() { let _ = mk::<Perspective3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27105() { let _ = mk::<Perspective3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27106() { let _ = &mk::<Perspective3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27107() { let _ = &mk::<Perspective3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27108() { let mut x = mk::<Perspective3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27109() { let mut x = mk::<Perspective3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27110() { let _ = mk::<Perspective3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27111() { let _ = mk::<Perspective3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27112() { let _ = &mk::<Perspective3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27113() { let _ = &mk::<Perspective3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27114() { let mut x = mk::<Perspective3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27115() { let mut x = mk::<Perspective3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27116() { let _ = mk::<Perspective3<f64>>() == mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p27117() { let _ = mk::<Perspective3<f64>>() < mk::<Orthographic3<f64>>(); } // reject equality-kinds
fn p27118() { let _: Orthographic3<f64> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27119() { let _: Orthographic3<f32> = mk::<Perspective3<f64>>(); } // reject no-implicit-conversion
fn p27120() { let _ = !mk::<Perspective3<f64>>(); } // reject negation
fn p27121() { let _ = !&mk::<Perspective3<f64>>(); } // reject negation
fn p27122() { let _ = mk::<Orthographic3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27123() { let _ = mk::<Orthographic3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27124() { let _ = &mk::<Orthographic3<f64>>() + mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27125() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27126() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27127() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27128() { let _ = mk::<Orthographic3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27129() { let _ = mk::<Orthographic3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27130() { let _ = &mk::<Orthographic3<f64>>() - mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27131() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27132() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27133() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27134() { let _: Vector3<f64> = mk::<Orthographic3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p27135() { let _ = mk::<Orthographic3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p27136() { let _ = mk::<Orthographic3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p27137() { let _: Vector3<f64> = mk::<Orthographic3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p27138() { let _ = mk::<Orthographic3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p27139() { let _ = mk::<Orthographic3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p27140() { let _: Vector3<f64> = &mk::<Orthographic3<f64>>() * mk::<Vector3<f64>>(); } // accept operator-kinds
fn p27141() { let _ = &mk::<Orthographic3<f64>>() * mk::<Vector3<f32>>(); } // reject operator-precision
fn p27142() { let _ = &mk::<Orthographic3<f32>>() * mk::<Vector3<f64>>(); } // reject operator-precision
fn p27143() { let _: Vector3<f64> = &mk::<Orthographic3<f64>>() * &mk::<Vector3<f64>>(); } // accept operator-kinds
fn p27144() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Vector3<f32>>(); } // reject operator-precision
fn p27145() { let _ = &mk::<Orthographic3<f32>>() * &mk::<Vector3<f64>>(); } // reject operator-precision
fn p27146() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27147() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27148() { let _ = mk::<Orthographic3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27149() { let _ = mk::<Orthographic3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27150() { let _ = &mk::<Orthographic3<f64>>() / mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27151() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27152() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27153() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27154() { let _ = mk::<Orthographic3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27155() { let _ = mk::<Orthographic3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27156() { let _ = &mk::<Orthographic3<f64>>() % mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27157() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Vector3<f64>>(); } // reject operator-kinds
fn p27158() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27159() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Vector3<f64>>(); } // reject assigning-kinds
fn p27160() { let _ = mk::<Orthographic3<f64>>() == mk::<Vector3<f64>>(); } // reject equality-kinds
fn p27161() { let _ = mk::<Orthographic3<f64>>() < mk::<Vector3<f64>>(); } // reject equality-kinds
fn p27162() { let _: Vector3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27163() { let _: Vector3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27164() { let _ = mk::<Orthographic3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27165() { let _ = mk::<Orthographic3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27166() { let _ = &mk::<Orthographic3<f64>>() + mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27167() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27168() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27169() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27170() { let _ = mk::<Orthographic3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27171() { let _ = mk::<Orthographic3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27172() { let _ = &mk::<Orthographic3<f64>>() - mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27173() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27174() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27175() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27176() { let _ = mk::<Orthographic3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27177() { let _ = mk::<Orthographic3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27178() { let _ = &mk::<Orthographic3<f64>>() * mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27179() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27180() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27181() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27182() { let _ = mk::<Orthographic3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27183() { let _ = mk::<Orthographic3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27184() { let _ = &mk::<Orthographic3<f64>>() / mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27185() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27186() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27187() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27188() { let _ = mk::<Orthographic3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27189() { let _ = mk::<Orthographic3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27190() { let _ = &mk::<Orthographic3<f64>>() % mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27191() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Vector4<f64>>(); } // reject operator-kinds
fn p27192() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27193() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Vector4<f64>>(); } // reject assigning-kinds
fn p27194() { let _ = mk::<Orthographic3<f64>>() == mk::<Vector4<f64>>(); } // reject equality-kinds
fn p27195() { let _ = mk::<Orthographic3<f64>>() < mk::<Vector4<f64>>(); } // reject equality-kinds
fn p27196() { let _: Vector4<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27197() { let _: Vector4<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27198() { let _ = mk::<Orthographic3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p27199() { let _ = mk::<Orthographic3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27200() { let _ = &mk::<Orthographic3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p27201() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27202() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27203() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27204() { let _ = mk::<Orthographic3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p27205() { let _ = mk::<Orthographic3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27206() { let _ = &mk::<Orthographic3<f64>>() - mk::<Point3<f64>>(); } // reject operator-kinds
fn p27207() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27208() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27209() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27210() { let _: Point3<f64> = mk::<Orthographic3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p27211() { let _ = mk::<Orthographic3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p27212() { let _ = mk::<Orthographic3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p27213() { let _: Point3<f64> = mk::<Orthographic3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p27214() { let _ = mk::<Orthographic3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p27215() { let _ = mk::<Orthographic3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p27216() { let _: Point3<f64> = &mk::<Orthographic3<f64>>() * mk::<Point3<f64>>(); } // accept operator-kinds
fn p27217() { let _ = &mk::<Orthographic3<f64>>() * mk::<Point3<f32>>(); } // reject operator-precision
fn p27218() { let _ = &mk::<Orthographic3<f32>>() * mk::<Point3<f64>>(); } // reject operator-precision
fn p27219() { let _: Point3<f64> = &mk::<Orthographic3<f64>>() * &mk::<Point3<f64>>(); } // accept operator-kinds
fn p27220() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Point3<f32>>(); } // reject operator-precision
fn p27221() { let _ = &mk::<Orthographic3<f32>>() * &mk::<Point3<f64>>(); } // reject operator-precision
fn p27222() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27223() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27224() { let _ = mk::<Orthographic3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p27225() { let _ = mk::<Orthographic3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27226() { let _ = &mk::<Orthographic3<f64>>() / mk::<Point3<f64>>(); } // reject operator-kinds
fn p27227() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27228() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27229() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27230() { let _ = mk::<Orthographic3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p27231() { let _ = mk::<Orthographic3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27232() { let _ = &mk::<Orthographic3<f64>>() % mk::<Point3<f64>>(); } // reject operator-kinds
fn p27233() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27234() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27235() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27236() { let _ = mk::<Orthographic3<f64>>() == mk::<Point3<f64>>(); } // reject equality-kinds
fn p27237() { let _ = mk::<Orthographic3<f64>>() < mk::<Point3<f64>>(); } // reject equality-kinds
fn p27238() { let _: Point3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27239() { let _: Point3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27240() { let _ = mk::<Orthographic3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27241() { let _ = mk::<Orthographic3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27242() { let _ = &mk::<Orthographic3<f64>>() + mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27243() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27244() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27245() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27246() { let _ = mk::<Orthographic3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27247() { let _ = mk::<Orthographic3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27248() { let _ = &mk::<Orthographic3<f64>>() - mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27249() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27250() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27251() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27252() { let _ = mk::<Orthographic3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27253() { let _ = mk::<Orthographic3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27254() { let _ = &mk::<Orthographic3<f64>>() * mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27255() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27256() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27257() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27258() { let _ = mk::<Orthographic3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27259() { let _ = mk::<Orthographic3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27260() { let _ = &mk::<Orthographic3<f64>>() / mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27261() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27262() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27263() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27264() { let _ = mk::<Orthographic3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27265() { let _ = mk::<Orthographic3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27266() { let _ = &mk::<Orthographic3<f64>>() % mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27267() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Matrix3x3<f64>>(); } // reject operator-kinds
fn p27268() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27269() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Matrix3x3<f64>>(); } // reject assigning-kinds
fn p27270() { let _ = mk::<Orthographic3<f64>>() == mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p27271() { let _ = mk::<Orthographic3<f64>>() < mk::<Matrix3x3<f64>>(); } // reject equality-kinds
fn p27272() { let _: Matrix3x3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27273() { let _: Matrix3x3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27274() { let _ = mk::<Orthographic3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27275() { let _ = mk::<Orthographic3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27276() { let _ = &mk::<Orthographic3<f64>>() + mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27277() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27278() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27279() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27280() { let _ = mk::<Orthographic3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27281() { let _ = mk::<Orthographic3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27282() { let _ = &mk::<Orthographic3<f64>>() - mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27283() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27284() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27285() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27286() { let _ = mk::<Orthographic3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27287() { let _ = mk::<Orthographic3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27288() { let _ = &mk::<Orthographic3<f64>>() * mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27289() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27290() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27291() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27292() { let _ = mk::<Orthographic3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27293() { let _ = mk::<Orthographic3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27294() { let _ = &mk::<Orthographic3<f64>>() / mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27295() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27296() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27297() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27298() { let _ = mk::<Orthographic3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27299() { let _ = mk::<Orthographic3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27300() { let _ = &mk::<Orthographic3<f64>>() % mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27301() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Matrix4x4<f64>>(); } // reject operator-kinds
fn p27302() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27303() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Matrix4x4<f64>>(); } // reject assigning-kinds
fn p27304() { let _ = mk::<Orthographic3<f64>>() == mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p27305() { let _ = mk::<Orthographic3<f64>>() < mk::<Matrix4x4<f64>>(); } // reject equality-kinds
fn p27306() { let _: Matrix4x4<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27307() { let _: Matrix4x4<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27308() { let _ = mk::<Orthographic3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27309() { let _ = mk::<Orthographic3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27310() { let _ = &mk::<Orthographic3<f64>>() + mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27311() { let _ = &mk::<Orthographic3<f64>>() + &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27312() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27313() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27314() { let _ = mk::<Orthographic3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27315() { let _ = mk::<Orthographic3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27316() { let _ = &mk::<Orthographic3<f64>>() - mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27317() { let _ = &mk::<Orthographic3<f64>>() - &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27318() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27319() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27320() { let _ = mk::<Orthographic3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27321() { let _ = mk::<Orthographic3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27322() { let _ = &mk::<Orthographic3<f64>>() * mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27323() { let _ = &mk::<Orthographic3<f64>>() * &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27324() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27325() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27326() { let _ = mk::<Orthographic3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27327() { let _ = mk::<Orthographic3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27328() { let _ = &mk::<Orthographic3<f64>>() / mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27329() { let _ = &mk::<Orthographic3<f64>>() / &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27330() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27331() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27332() { let _ = mk::<Orthographic3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27333() { let _ = mk::<Orthographic3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27334() { let _ = &mk::<Orthographic3<f64>>() % mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27335() { let _ = &mk::<Orthographic3<f64>>() % &mk::<RowVector3<f64>>(); } // reject operator-kinds
fn p27336() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27337() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<RowVector3<f64>>(); } // reject assigning-kinds
fn p27338() { let _ = mk::<Orthographic3<f64>>() == mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p27339() { let _ = mk::<Orthographic3<f64>>() < mk::<RowVector3<f64>>(); } // reject equality-kinds
fn p27340() { let _: RowVector3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27341() { let _: RowVector3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27342() { let _ = mk::<Orthographic3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27343() { let _ = mk::<Orthographic3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27344() { let _ = &mk::<Orthographic3<f64>>() + mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27345() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27346() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27347() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27348() { let _ = mk::<Orthographic3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27349() { let _ = mk::<Orthographic3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27350() { let _ = &mk::<Orthographic3<f64>>() - mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27351() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27352() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27353() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27354() { let _ = mk::<Orthographic3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27355() { let _ = mk::<Orthographic3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27356() { let _ = &mk::<Orthographic3<f64>>() * mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27357() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27358() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27359() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27360() { let _ = mk::<Orthographic3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27361() { let _ = mk::<Orthographic3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27362() { let _ = &mk::<Orthographic3<f64>>() / mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27363() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27364() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27365() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27366() { let _ = mk::<Orthographic3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27367() { let _ = mk::<Orthographic3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27368() { let _ = &mk::<Orthographic3<f64>>() % mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27369() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Quaternion<f64>>(); } // reject operator-kinds
fn p27370() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27371() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Quaternion<f64>>(); } // reject assigning-kinds
fn p27372() { let _ = mk::<Orthographic3<f64>>() == mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p27373() { let _ = mk::<Orthographic3<f64>>() < mk::<Quaternion<f64>>(); } // reject equality-kinds
fn p27374() { let _: Quaternion<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27375() { let _: Quaternion<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27376() { let _ = mk::<Orthographic3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p27377() { let _ = mk::<Orthographic3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27378() { let _ = &mk::<Orthographic3<f64>>() + mk::<Complex<f64>>(); } // reject operator-kinds
fn p27379() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27380() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27381() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27382() { let _ = mk::<Orthographic3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p27383() { let _ = mk::<Orthographic3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27384() { let _ = &mk::<Orthographic3<f64>>() - mk::<Complex<f64>>(); } // reject operator-kinds
fn p27385() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27386() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27387() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27388() { let _ = mk::<Orthographic3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p27389() { let _ = mk::<Orthographic3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27390() { let _ = &mk::<Orthographic3<f64>>() * mk::<Complex<f64>>(); } // reject operator-kinds
fn p27391() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27392() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27393() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27394() { let _ = mk::<Orthographic3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p27395() { let _ = mk::<Orthographic3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27396() { let _ = &mk::<Orthographic3<f64>>() / mk::<Complex<f64>>(); } // reject operator-kinds
fn p27397() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27398() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27399() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27400() { let _ = mk::<Orthographic3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p27401() { let _ = mk::<Orthographic3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27402() { let _ = &mk::<Orthographic3<f64>>() % mk::<Complex<f64>>(); } // reject operator-kinds
fn p27403() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Complex<f64>>(); } // reject operator-kinds
fn p27404() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27405() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Complex<f64>>(); } // reject assigning-kinds
fn p27406() { let _ = mk::<Orthographic3<f64>>() == mk::<Complex<f64>>(); } // reject equality-kinds
fn p27407() { let _ = mk::<Orthographic3<f64>>() < mk::<Complex<f64>>(); } // reject equality-kinds
fn p27408() { let _: Complex<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27409() { let _: Complex<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27410() { let _ = mk::<Orthographic3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p27411() { let _ = mk::<Orthographic3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27412() { let _ = &mk::<Orthographic3<f64>>() + mk::<Radians<f64>>(); } // reject operator-kinds
fn p27413() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27414() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27415() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27416() { let _ = mk::<Orthographic3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p27417() { let _ = mk::<Orthographic3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27418() { let _ = &mk::<Orthographic3<f64>>() - mk::<Radians<f64>>(); } // reject operator-kinds
fn p27419() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27420() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27421() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27422() { let _ = mk::<Orthographic3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p27423() { let _ = mk::<Orthographic3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27424() { let _ = &mk::<Orthographic3<f64>>() * mk::<Radians<f64>>(); } // reject operator-kinds
fn p27425() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27426() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27427() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27428() { let _ = mk::<Orthographic3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p27429() { let _ = mk::<Orthographic3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27430() { let _ = &mk::<Orthographic3<f64>>() / mk::<Radians<f64>>(); } // reject operator-kinds
fn p27431() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27432() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27433() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27434() { let _ = mk::<Orthographic3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p27435() { let _ = mk::<Orthographic3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27436() { let _ = &mk::<Orthographic3<f64>>() % mk::<Radians<f64>>(); } // reject operator-kinds
fn p27437() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Radians<f64>>(); } // reject operator-kinds
fn p27438() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27439() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Radians<f64>>(); } // reject assigning-kinds
fn p27440() { let _ = mk::<Orthographic3<f64>>() == mk::<Radians<f64>>(); } // reject equality-kinds
fn p27441() { let _ = mk::<Orthographic3<f64>>() < mk::<Radians<f64>>(); } // reject equality-kinds
fn p27442() { let _: Radians<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27443() { let _: Radians<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27444() { let _ = mk::<Orthographic3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27445() { let _ = mk::<Orthographic3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27446() { let _ = &mk::<Orthographic3<f64>>() + mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27447() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27448() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27449() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27450() { let _ = mk::<Orthographic3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27451() { let _ = mk::<Orthographic3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27452() { let _ = &mk::<Orthographic3<f64>>() - mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27453() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27454() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27455() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27456() { let _ = mk::<Orthographic3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27457() { let _ = mk::<Orthographic3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27458() { let _ = &mk::<Orthographic3<f64>>() * mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27459() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27460() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27461() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27462() { let _ = mk::<Orthographic3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27463() { let _ = mk::<Orthographic3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27464() { let _ = &mk::<Orthographic3<f64>>() / mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27465() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27466() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27467() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27468() { let _ = mk::<Orthographic3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27469() { let _ = mk::<Orthographic3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27470() { let _ = &mk::<Orthographic3<f64>>() % mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27471() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Degrees<f64>>(); } // reject operator-kinds
fn p27472() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27473() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Degrees<f64>>(); } // reject assigning-kinds
fn p27474() { let _ = mk::<Orthographic3<f64>>() == mk::<Degrees<f64>>(); } // reject equality-kinds
fn p27475() { let _ = mk::<Orthographic3<f64>>() < mk::<Degrees<f64>>(); } // reject equality-kinds
fn p27476() { let _: Degrees<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27477() { let _: Degrees<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27478() { let _ = mk::<Orthographic3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p27479() { let _ = mk::<Orthographic3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p27480() { let _ = &mk::<Orthographic3<f64>>() + mk::<f64>(); } // reject operator-kinds
fn p27481() { let _ = &mk::<Orthographic3<f64>>() + &mk::<f64>(); } // reject operator-kinds
fn p27482() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<f64>(); } // reject assigning-kinds
fn p27483() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<f64>(); } // reject assigning-kinds
fn p27484() { let _ = mk::<Orthographic3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p27485() { let _ = mk::<Orthographic3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p27486() { let _ = &mk::<Orthographic3<f64>>() - mk::<f64>(); } // reject operator-kinds
fn p27487() { let _ = &mk::<Orthographic3<f64>>() - &mk::<f64>(); } // reject operator-kinds
fn p27488() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<f64>(); } // reject assigning-kinds
fn p27489() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<f64>(); } // reject assigning-kinds
fn p27490() { let _ = mk::<Orthographic3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p27491() { let _ = mk::<Orthographic3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p27492() { let _ = &mk::<Orthographic3<f64>>() * mk::<f64>(); } // reject operator-kinds
fn p27493() { let _ = &mk::<Orthographic3<f64>>() * &mk::<f64>(); } // reject operator-kinds
fn p27494() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<f64>(); } // reject assigning-kinds
fn p27495() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<f64>(); } // reject assigning-kinds
fn p27496() { let _ = mk::<Orthographic3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p27497() { let _ = mk::<Orthographic3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p27498() { let _ = &mk::<Orthographic3<f64>>() / mk::<f64>(); } // reject operator-kinds
fn p27499() { let _ = &mk::<Orthographic3<f64>>() / &mk::<f64>(); } // reject operator-kinds
fn p27500() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<f64>(); } // reject assigning-kinds
fn p27501() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<f64>(); } // reject assigning-kinds
fn p27502() { let _ = mk::<Orthographic3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p27503() { let _ = mk::<Orthographic3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p27504() { let _ = &mk::<Orthographic3<f64>>() % mk::<f64>(); } // reject operator-kinds
fn p27505() { let _ = &mk::<Orthographic3<f64>>() % &mk::<f64>(); } // reject operator-kinds
fn p27506() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<f64>(); } // reject assigning-kinds
fn p27507() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<f64>(); } // reject assigning-kinds
fn p27508() { let _ = mk::<Orthographic3<f64>>() == mk::<f64>(); } // reject equality-kinds
fn p27509() { let _ = mk::<Orthographic3<f64>>() < mk::<f64>(); } // reject equality-kinds
fn p27510() { let _: f64 = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27511() { let _: f32 = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27512() { let _ = mk::<Orthographic3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27513() { let _ = mk::<Orthographic3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27514() { let _ = &mk::<Orthographic3<f64>>() + mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27515() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27516() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27517() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27518() { let _ = mk::<Orthographic3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27519() { let _ = mk::<Orthographic3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27520() { let _ = &mk::<Orthographic3<f64>>() - mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27521() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27522() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27523() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27524() { let _ = mk::<Orthographic3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27525() { let _ = mk::<Orthographic3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27526() { let _ = &mk::<Orthographic3<f64>>() * mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27527() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27528() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27529() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27530() { let _ = mk::<Orthographic3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27531() { let _ = mk::<Orthographic3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27532() { let _ = &mk::<Orthographic3<f64>>() / mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27533() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27534() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27535() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27536() { let _ = mk::<Orthographic3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27537() { let _ = mk::<Orthographic3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27538() { let _ = &mk::<Orthographic3<f64>>() % mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27539() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Euler<Radians<f64>>>(); } // reject operator-kinds
fn p27540() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27541() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Euler<Radians<f64>>>(); } // reject assigning-kinds
fn p27542() { let _ = mk::<Orthographic3<f64>>() == mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p27543() { let _ = mk::<Orthographic3<f64>>() < mk::<Euler<Radians<f64>>>(); } // reject equality-kinds
fn p27544() { let _: Euler<Radians<f64>> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27545() { let _: Euler<Radians<f32>> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27546() { let _ = mk::<Orthographic3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27547() { let _ = mk::<Orthographic3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27548() { let _ = &mk::<Orthographic3<f64>>() + mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27549() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27550() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27551() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27552() { let _ = mk::<Orthographic3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27553() { let _ = mk::<Orthographic3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27554() { let _ = &mk::<Orthographic3<f64>>() - mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27555() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27556() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27557() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27558() { let _ = mk::<Orthographic3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27559() { let _ = mk::<Orthographic3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27560() { let _ = &mk::<Orthographic3<f64>>() / mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27561() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27562() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27563() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27564() { let _ = mk::<Orthographic3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27565() { let _ = mk::<Orthographic3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27566() { let _ = &mk::<Orthographic3<f64>>() % mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27567() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Unit<Vector3<f64>>>(); } // reject operator-kinds
fn p27568() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27569() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Unit<Vector3<f64>>>(); } // reject assigning-kinds
fn p27570() { let _ = mk::<Orthographic3<f64>>() == mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p27571() { let _ = mk::<Orthographic3<f64>>() < mk::<Unit<Vector3<f64>>>(); } // reject equality-kinds
fn p27572() { let _: Unit<Vector3<f64>> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27573() { let _: Unit<Vector3<f32>> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27574() { let _ = mk::<Orthographic3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27575() { let _ = mk::<Orthographic3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27576() { let _ = &mk::<Orthographic3<f64>>() + mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27577() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27578() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27579() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27580() { let _ = mk::<Orthographic3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27581() { let _ = mk::<Orthographic3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27582() { let _ = &mk::<Orthographic3<f64>>() - mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27583() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27584() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27585() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27586() { let _ = mk::<Orthographic3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27587() { let _ = mk::<Orthographic3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27588() { let _ = &mk::<Orthographic3<f64>>() * mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27589() { let _ = &mk::<Orthographic3<f64>>() * &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27590() { let mut x = mk::<Orthographic3<f64>>(); x *= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27591() { let mut x = mk::<Orthographic3<f64>>(); x *= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27592() { let _ = mk::<Orthographic3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27593() { let _ = mk::<Orthographic3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27594() { let _ = &mk::<Orthographic3<f64>>() / mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27595() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27596() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27597() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27598() { let _ = mk::<Orthographic3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27599() { let _ = mk::<Orthographic3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27600() { let _ = &mk::<Orthographic3<f64>>() % mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27601() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Unit<Quaternion<f64>>>(); } // reject operator-kinds
fn p27602() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27603() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Unit<Quaternion<f64>>>(); } // reject assigning-kinds
fn p27604() { let _ = mk::<Orthographic3<f64>>() == mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p27605() { let _ = mk::<Orthographic3<f64>>() < mk::<Unit<Quaternion<f64>>>(); } // reject equality-kinds
fn p27606() { let _: Unit<Quaternion<f64>> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27607() { let _: Unit<Quaternion<f32>> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27608() { let _ = mk::<Orthographic3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27609() { let _ = mk::<Orthographic3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27610() { let _ = &mk::<Orthographic3<f64>>() + mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27611() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27612() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27613() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27614() { let _ = mk::<Orthographic3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27615() { let _ = mk::<Orthographic3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27616() { let _ = &mk::<Orthographic3<f64>>() - mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27617() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27618() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27619() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27620() { let _ = mk::<Orthographic3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27621() { let _ = mk::<Orthographic3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27622() { let _ = &mk::<Orthographic3<f64>>() / mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27623() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27624() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27625() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27626() { let _ = mk::<Orthographic3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27627() { let _ = mk::<Orthographic3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27628() { let _ = &mk::<Orthographic3<f64>>() % mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27629() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Rotation3<f64>>(); } // reject operator-kinds
fn p27630() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27631() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Rotation3<f64>>(); } // reject assigning-kinds
fn p27632() { let _ = mk::<Orthographic3<f64>>() == mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p27633() { let _ = mk::<Orthographic3<f64>>() < mk::<Rotation3<f64>>(); } // reject equality-kinds
fn p27634() { let _: Rotation3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27635() { let _: Rotation3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27636() { let _ = mk::<Orthographic3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27637() { let _ = mk::<Orthographic3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27638() { let _ = &mk::<Orthographic3<f64>>() + mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27639() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27640() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27641() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27642() { let _ = mk::<Orthographic3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27643() { let _ = mk::<Orthographic3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27644() { let _ = &mk::<Orthographic3<f64>>() - mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27645() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27646() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27647() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27648() { let _ = mk::<Orthographic3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27649() { let _ = mk::<Orthographic3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27650() { let _ = &mk::<Orthographic3<f64>>() / mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27651() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27652() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27653() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27654() { let _ = mk::<Orthographic3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27655() { let _ = mk::<Orthographic3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27656() { let _ = &mk::<Orthographic3<f64>>() % mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27657() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Translation3<f64>>(); } // reject operator-kinds
fn p27658() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27659() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Translation3<f64>>(); } // reject assigning-kinds
fn p27660() { let _ = mk::<Orthographic3<f64>>() == mk::<Translation3<f64>>(); } // reject equality-kinds
fn p27661() { let _ = mk::<Orthographic3<f64>>() < mk::<Translation3<f64>>(); } // reject equality-kinds
fn p27662() { let _: Translation3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27663() { let _: Translation3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27664() { let _ = mk::<Orthographic3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27665() { let _ = mk::<Orthographic3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27666() { let _ = &mk::<Orthographic3<f64>>() + mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27667() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27668() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27669() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27670() { let _ = mk::<Orthographic3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27671() { let _ = mk::<Orthographic3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27672() { let _ = &mk::<Orthographic3<f64>>() - mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27673() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27674() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27675() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27676() { let _ = mk::<Orthographic3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27677() { let _ = mk::<Orthographic3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27678() { let _ = &mk::<Orthographic3<f64>>() / mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27679() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27680() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27681() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27682() { let _ = mk::<Orthographic3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27683() { let _ = mk::<Orthographic3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27684() { let _ = &mk::<Orthographic3<f64>>() % mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27685() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Scale3<f64>>(); } // reject operator-kinds
fn p27686() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27687() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Scale3<f64>>(); } // reject assigning-kinds
fn p27688() { let _ = mk::<Orthographic3<f64>>() == mk::<Scale3<f64>>(); } // reject equality-kinds
fn p27689() { let _ = mk::<Orthographic3<f64>>() < mk::<Scale3<f64>>(); } // reject equality-kinds
fn p27690() { let _: Scale3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27691() { let _: Scale3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27692() { let _ = mk::<Orthographic3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27693() { let _ = mk::<Orthographic3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27694() { let _ = &mk::<Orthographic3<f64>>() + mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27695() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27696() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27697() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27698() { let _ = mk::<Orthographic3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27699() { let _ = mk::<Orthographic3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27700() { let _ = &mk::<Orthographic3<f64>>() - mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27701() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27702() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27703() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27704() { let _ = mk::<Orthographic3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27705() { let _ = mk::<Orthographic3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27706() { let _ = &mk::<Orthographic3<f64>>() / mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27707() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27708() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27709() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27710() { let _ = mk::<Orthographic3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27711() { let _ = mk::<Orthographic3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27712() { let _ = &mk::<Orthographic3<f64>>() % mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27713() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Shear3<f64>>(); } // reject operator-kinds
fn p27714() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27715() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Shear3<f64>>(); } // reject assigning-kinds
fn p27716() { let _ = mk::<Orthographic3<f64>>() == mk::<Shear3<f64>>(); } // reject equality-kinds
fn p27717() { let _ = mk::<Orthographic3<f64>>() < mk::<Shear3<f64>>(); } // reject equality-kinds
fn p27718() { let _: Shear3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27719() { let _: Shear3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27720() { let _ = mk::<Orthographic3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27721() { let _ = mk::<Orthographic3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27722() { let _ = &mk::<Orthographic3<f64>>() + mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27723() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27724() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27725() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27726() { let _ = mk::<Orthographic3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27727() { let _ = mk::<Orthographic3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27728() { let _ = &mk::<Orthographic3<f64>>() - mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27729() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27730() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27731() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27732() { let _ = mk::<Orthographic3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27733() { let _ = mk::<Orthographic3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27734() { let _ = &mk::<Orthographic3<f64>>() / mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27735() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27736() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27737() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27738() { let _ = mk::<Orthographic3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27739() { let _ = mk::<Orthographic3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27740() { let _ = &mk::<Orthographic3<f64>>() % mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27741() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Reflection3<f64>>(); } // reject operator-kinds
fn p27742() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27743() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Reflection3<f64>>(); } // reject assigning-kinds
fn p27744() { let _ = mk::<Orthographic3<f64>>() == mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p27745() { let _ = mk::<Orthographic3<f64>>() < mk::<Reflection3<f64>>(); } // reject equality-kinds
fn p27746() { let _: Reflection3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27747() { let _: Reflection3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27748() { let _ = mk::<Orthographic3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27749() { let _ = mk::<Orthographic3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27750() { let _ = &mk::<Orthographic3<f64>>() + mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27751() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27752() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27753() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27754() { let _ = mk::<Orthographic3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27755() { let _ = mk::<Orthographic3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27756() { let _ = &mk::<Orthographic3<f64>>() - mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27757() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27758() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27759() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27760() { let _ = mk::<Orthographic3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27761() { let _ = mk::<Orthographic3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27762() { let _ = &mk::<Orthographic3<f64>>() / mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27763() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27764() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27765() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27766() { let _ = mk::<Orthographic3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27767() { let _ = mk::<Orthographic3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27768() { let _ = &mk::<Orthographic3<f64>>() % mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27769() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Isometry3<f64>>(); } // reject operator-kinds
fn p27770() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27771() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Isometry3<f64>>(); } // reject assigning-kinds
fn p27772() { let _ = mk::<Orthographic3<f64>>() == mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p27773() { let _ = mk::<Orthographic3<f64>>() < mk::<Isometry3<f64>>(); } // reject equality-kinds
fn p27774() { let _: Isometry3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27775() { let _: Isometry3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27776() { let _ = mk::<Orthographic3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27777() { let _ = mk::<Orthographic3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27778() { let _ = &mk::<Orthographic3<f64>>() + mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27779() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27780() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27781() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27782() { let _ = mk::<Orthographic3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27783() { let _ = mk::<Orthographic3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27784() { let _ = &mk::<Orthographic3<f64>>() - mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27785() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27786() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27787() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27788() { let _ = mk::<Orthographic3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27789() { let _ = mk::<Orthographic3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27790() { let _ = &mk::<Orthographic3<f64>>() / mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27791() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27792() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27793() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27794() { let _ = mk::<Orthographic3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27795() { let _ = mk::<Orthographic3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27796() { let _ = &mk::<Orthographic3<f64>>() % mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27797() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Similarity3<f64>>(); } // reject operator-kinds
fn p27798() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27799() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Similarity3<f64>>(); } // reject assigning-kinds
fn p27800() { let _ = mk::<Orthographic3<f64>>() == mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p27801() { let _ = mk::<Orthographic3<f64>>() < mk::<Similarity3<f64>>(); } // reject equality-kinds
fn p27802() { let _: Similarity3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27803() { let _: Similarity3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27804() { let _ = mk::<Orthographic3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27805() { let _ = mk::<Orthographic3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27806() { let _ = &mk::<Orthographic3<f64>>() + mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27807() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27808() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27809() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27810() { let _ = mk::<Orthographic3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27811() { let _ = mk::<Orthographic3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27812() { let _ = &mk::<Orthographic3<f64>>() - mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27813() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27814() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27815() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27816() { let _ = mk::<Orthographic3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27817() { let _ = mk::<Orthographic3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27818() { let _ = &mk::<Orthographic3<f64>>() / mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27819() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27820() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27821() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27822() { let _ = mk::<Orthographic3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27823() { let _ = mk::<Orthographic3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27824() { let _ = &mk::<Orthographic3<f64>>() % mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27825() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Transform3<f64>>(); } // reject operator-kinds
fn p27826() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27827() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Transform3<f64>>(); } // reject assigning-kinds
fn p27828() { let _ = mk::<Orthographic3<f64>>() == mk::<Transform3<f64>>(); } // reject equality-kinds
fn p27829() { let _ = mk::<Orthographic3<f64>>() < mk::<Transform3<f64>>(); } // reject equality-kinds
fn p27830() { let _: Transform3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27831() { let _: Transform3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27832() { let _ = mk::<Orthographic3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27833() { let _ = mk::<Orthographic3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27834() { let _ = &mk::<Orthographic3<f64>>() + mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27835() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27836() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27837() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27838() { let _ = mk::<Orthographic3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27839() { let _ = mk::<Orthographic3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27840() { let _ = &mk::<Orthographic3<f64>>() - mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27841() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27842() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27843() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27844() { let _ = mk::<Orthographic3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27845() { let _ = mk::<Orthographic3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27846() { let _ = &mk::<Orthographic3<f64>>() / mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27847() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27848() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27849() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27850() { let _ = mk::<Orthographic3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27851() { let _ = mk::<Orthographic3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27852() { let _ = &mk::<Orthographic3<f64>>() % mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27853() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Perspective3<f64>>(); } // reject operator-kinds
fn p27854() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27855() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Perspective3<f64>>(); } // reject assigning-kinds
fn p27856() { let _ = mk::<Orthographic3<f64>>() == mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p27857() { let _ = mk::<Orthographic3<f64>>() < mk::<Perspective3<f64>>(); } // reject equality-kinds
fn p27858() { let _: Perspective3<f64> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27859() { let _: Perspective3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27860() { let _ = mk::<Orthographic3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27861() { let _ = mk::<Orthographic3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27862() { let _ = &mk::<Orthographic3<f64>>() + mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27863() { let _ = &mk::<Orthographic3<f64>>() + &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27864() { let mut x = mk::<Orthographic3<f64>>(); x += mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27865() { let mut x = mk::<Orthographic3<f64>>(); x += &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27866() { let _ = mk::<Orthographic3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27867() { let _ = mk::<Orthographic3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27868() { let _ = &mk::<Orthographic3<f64>>() - mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27869() { let _ = &mk::<Orthographic3<f64>>() - &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27870() { let mut x = mk::<Orthographic3<f64>>(); x -= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27871() { let mut x = mk::<Orthographic3<f64>>(); x -= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27872() { let _ = mk::<Orthographic3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27873() { let _ = mk::<Orthographic3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27874() { let _ = &mk::<Orthographic3<f64>>() / mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27875() { let _ = &mk::<Orthographic3<f64>>() / &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27876() { let mut x = mk::<Orthographic3<f64>>(); x /= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27877() { let mut x = mk::<Orthographic3<f64>>(); x /= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27878() { let _ = mk::<Orthographic3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27879() { let _ = mk::<Orthographic3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27880() { let _ = &mk::<Orthographic3<f64>>() % mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27881() { let _ = &mk::<Orthographic3<f64>>() % &mk::<Orthographic3<f64>>(); } // reject operator-kinds
fn p27882() { let mut x = mk::<Orthographic3<f64>>(); x %= mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27883() { let mut x = mk::<Orthographic3<f64>>(); x %= &mk::<Orthographic3<f64>>(); } // reject assigning-kinds
fn p27884() { let _ = mk::<Orthographic3<f64>>() == mk::<Orthographic3<f64>>(); } // accept equality-kinds
fn p27885() { let _: Orthographic3<f64> = mk::<Orthographic3<f64>>(); } // accept no-implicit-conversion
fn p27886() { let _: Orthographic3<f32> = mk::<Orthographic3<f64>>(); } // reject no-implicit-conversion
fn p27887() { let _ = !mk::<Orthographic3<f64>>(); } // reject negation
fn p27888() { let _ = !&mk::<Orthographic3<f64>>(); } // reject negation
fn p27889() { let _: Vector3<f64> = mk::<Vector3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p27890() { let _: Vector3<f64> = mk::<Vector3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27891() { let mut x = mk::<Vector3<f64>>(); x += mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27892() { let _: Vector3<f64> = &mk::<Vector3<f64>>() + mk::<Point3<f64>>(); } // reject operator-kinds
fn p27893() { let _: Vector3<f64> = &mk::<Vector3<f64>>() + &mk::<Point3<f64>>(); } // reject operator-kinds
fn p27894() { let mut x = mk::<Vector3<f64>>(); x += &mk::<Point3<f64>>(); } // reject assigning-kinds
fn p27895() { let _: Vector3<f64> = mk::<Vector4<f64>>().into(); } // accept conversion
fn p27896() { let _: Vector3<f64> = (&mk::<Vector4<f64>>()).into(); } // accept conversion
fn p27897() { let _: Quaternion<f64> = mk::<Vector4<f64>>().into(); } // accept conversion
fn p27898() { let _: Quaternion<f64> = (&mk::<Vector4<f64>>()).into(); } // accept conversion
fn p27899() { let _: Matrix4x4<f64> = mk::<Matrix3x3<f64>>().into(); } // accept conversion
fn p27900() { let _: Matrix4x4<f64> = (&mk::<Matrix3x3<f64>>()).into(); } // accept conversion
fn p27901() { let _: Quaternion<f64> = mk::<Matrix3x3<f64>>().into(); } // accept conversion
fn p27902() { let _: Quaternion<f64> = (&mk::<Matrix3x3<f64>>()).into(); } // accept conversion
fn p27903() { let _: Matrix3x3<f64> = mk::<Quaternion<f64>>().into(); } // accept conversion
fn p27904() { let _: Matrix3x3<f64> = (&mk::<Quaternion<f64>>()).into(); } // accept conversion
fn p27905() { let _: Matrix4x4<f64> = mk::<Quaternion<f64>>().into(); } // accept conversion
fn p27906() { let _: Matrix4x4<f64> = (&mk::<Quaternion<f64>>()).into(); } // accept conversion
fn p27907() { let _: Euler<Radians<f64>> = mk::<Quaternion<f64>>().into(); } // accept conversion
fn p27908() { let _: Euler<Radians<f64>> = (&mk::<Quaternion<f64>>()).into(); } // accept conversion
fn p27909() { let _: Rotation3<f64> = mk::<Quaternion<f64>>().into(); } // accept conversion
fn p27910() { let _: Rotation3<f64> = (&mk::<Quaternion<f64>>()).into(); } // accept conversion
fn p27911() { let _: Matrix3x3<f64> = mk::<Euler<Radians<f64>>>().into(); } // accept conversion
fn p27912() { let _: Matrix3x3<f64> = (&mk::<Euler<Radians<f64>>>()).into(); } // accept conversion
fn p27913() { let _: Matrix4x4<f64> = mk::<Euler<Radians<f64>>>().into(); } // accept conversion
fn p27914() { let _: Matrix4x4<f64> = (&mk::<Euler<Radians<f64>>>()).into(); } // accept conversion
fn p27915() { let _: Rotation3<f64> = mk::<Euler<Radians<f64>>>().into(); } // accept conversion
fn p27916() { let _: Rotation3<f64> = (&mk::<Euler<Radians<f64>>>()).into(); } // accept conversion
fn p27917() { let _: Quaternion<f64> = mk::<Rotation3<f64>>().into(); } // accept conversion
fn p27918() { let _: Quaternion<f64> = (&mk::<Rotation3<f64>>()).into(); } // accept conversion
fn p27919() { let _: Complex<f64> = mk::<f64>().into(); } // accept conversion
fn p27920() { let _: Complex<f64> = (&mk::<f64>()).into(); } // accept conversion
fn p27921() { let _: Matrix4x4<f64> = mk::<Rotation3<f64>>().into(); } // accept conversion
fn p27922() { let _: Matrix4x4<f64> = (&mk::<Rotation3<f64>>()).into(); } // accept conversion
fn p27923() { let _: Matrix4x4<f64> = mk::<Translation3<f64>>().into(); } // accept conversion
fn p27924() { let _: Matrix4x4<f64> = (&mk::<Translation3<f64>>()).into(); } // accept conversion
fn p27925() { let _: Matrix4x4<f64> = mk::<Scale3<f64>>().into(); } // accept conversion
fn p27926() { let _: Matrix4x4<f64> = (&mk::<Scale3<f64>>()).into(); } // accept conversion
fn p27927() { let _: Matrix4x4<f64> = mk::<Shear3<f64>>().into(); } // accept conversion
fn p27928() { let _: Matrix4x4<f64> = (&mk::<Shear3<f64>>()).into(); } // accept conversion
fn p27929() { let _: Matrix4x4<f64> = mk::<Reflection3<f64>>().into(); } // accept conversion
fn p27930() { let _: Matrix4x4<f64> = (&mk::<Reflection3<f64>>()).into(); } // accept conversion
fn p27931() { let _: Matrix4x4<f64> = mk::<Isometry3<f64>>().into(); } // accept conversion
fn p27932() { let _: Matrix4x4<f64> = (&mk::<Isometry3<f64>>()).into(); } // accept conversion
fn p27933() { let _: Matrix4x4<f64> = mk::<Similarity3<f64>>().into(); } // accept conversion
fn p27934() { let _: Matrix4x4<f64> = (&mk::<Similarity3<f64>>()).into(); } // accept conversion
fn p27935() { let _: Matrix4x4<f64> = mk::<Transform3<f64>>().into(); } // accept conversion
fn p27936() { let _: Matrix4x4<f64> = (&mk::<Transform3<f64>>()).into(); } // accept conversion
fn p27937() { let _: Degrees<f64> = mk::<Radians<f64>>().into(); } // accept conversion
fn p27938() { let _: Radians<f64> = mk::<Degrees<f64>>().into(); } // accept conversion
fn p27939() { let _: Matrix4x4<f64> = mk::<Perspective3<f64>>().into(); } // accept conversion
fn p27940() { let _: Matrix4x4<f64> = mk::<Orthographic3<f64>>().into(); } // accept conversion
fn p27941() { let _: cglinalg_core::Complex<f64> = mk::<cglinalg::Complex<f64>>(); } // accept facade
fn p27942() { let _: cglinalg_core::Euler<cglinalg::Radians<f64>> = mk::<cglinalg::Euler<cglinalg::Radians<f64>>>(); } // accept facade
fn p27943() { let _: cglinalg_core::Matrix<f64,2,5> = mk::<cglinalg::Matrix<f64,2,5>>(); } // accept facade
fn p27944() { let _: cglinalg_core::Point<f64,7> = mk::<cglinalg::Point<f64,7>>(); } // accept facade
fn p27945() { let _: cglinalg_core::Quaternion<f64> = mk::<cglinalg::Quaternion<f64>>(); } // accept facade
fn p27946() { let _: cglinalg_core::Unit<cglinalg::Vector3<f64>> = mk::<cglinalg::Unit<cglinalg::Vector3<f64>>>(); } // accept facade
fn p27947() { let _: cglinalg_core::Vector<f64,9> = mk::<cglinalg::Vector<f64,9>>(); } // accept facade
fn p27948() { let _: cglinalg_core::Const<3> = mk::<cglinalg::Const<3>>(); } // accept facade
fn p27949() { let _: cglinalg_core::ShapeConstraint = mk::<cglinalg::ShapeConstraint>(); } // accept facade
fn p27950() { let _: cglinalg_core::L1Norm = mk::<cglinalg::L1Norm>(); } // accept facade
fn p27951() { let _: cglinalg_core::L2Norm = mk::<cglinalg::L2Norm>(); } // accept facade
fn p27952() { let _: cglinalg_core::LinfNorm = mk::<cglinalg::LinfNorm>(); } // accept facade
fn p27953() { let _: cglinalg_core::LpNorm = mk::<cglinalg::LpNorm>(); } // accept facade
fn p27954() { let _: cglinalg_core::L1MatrixNorm = mk::<cglinalg::L1MatrixNorm>(); } // accept facade
fn p27955() { let _: cglinalg_core::LinfMatrixNorm = mk::<cglinalg::LinfMatrixNorm>(); } // accept facade
fn p27956() { let _: cglinalg_core::FrobeniusNorm = mk::<cglinalg::FrobeniusNorm>(); } // accept facade
fn p27957() { let _: cglinalg_core::EuclideanNorm = mk::<cglinalg::EuclideanNorm>(); } // accept facade
fn p27958() { let _: cglinalg_core::UniformNorm = mk::<cglinalg::UniformNorm>(); } // accept facade
fn p27959() { let _: cglinalg_core::Matrix1x1<f64> = mk::<cglinalg::Matrix1x1<f64>>(); } // accept facade
fn p27960() { let _: cglinalg_core::Matrix1x2<f64> = mk::<cglinalg::Matrix1x2<f64>>(); } // accept facade
fn p27961() { let _: cglinalg_core::Matrix1x3<f64> = mk::<cglinalg::Matrix1x3<f64>>(); } // accept facade
fn p27962() { let _: cglinalg_core::Matrix1x4<f64> = mk::<cglinalg::Matrix1x4<f64>>(); } // accept facade
fn p27963() { let _: cglinalg_core::Matrix2x2<f64> = mk::<cglinalg::Matrix2x2<f64>>(); } // accept facade
fn p27964() { let _: cglinalg_core::Matrix2x3<f64> = mk::<cglinalg::Matrix2x3<f64>>(); } // accept facade
fn p27965() { let _: cglinalg_core::Matrix2x4<f64> = mk::<cglinalg::Matrix2x4<f64>>(); } // accept facade
fn p27966() { let _: cglinalg_core::Matrix3x2<f64> = mk::<cglinalg::Matrix3x2<f64>>(); } // accept facade
fn p27967() { let _: cglinalg_core::Matrix3x3<f64> = mk::<cglinalg::Matrix3x3<f64>>(); } // accept facade
fn p27968() { let _: cglinalg_core::Matrix3x4<f64> = mk::<cglinalg::Matrix3x4<f64>>(); } // accept facade
fn p27969() { let _: cglinalg_core::Matrix4x2<f64> = mk::<cglinalg::Matrix4x2<f64>>(); } // accept facade
fn p27970() { let _: cglinalg_core::Matrix4x3<f64> = mk::<cglinalg::Matrix4x3<f64>>(); } // accept facade
fn p27971() { let _: cglinalg_core::Matrix4x4<f64> = mk::<cglinalg::Matrix4x4<f64>>(); } // accept facade
fn p27972() { let _: cglinalg_core::Matrix1<f64> = mk::<cglinalg::Matrix1<f64>>(); } // accept facade
fn p27973() { let _: cglinalg_core::Matrix2<f64> = mk::<cglinalg::Matrix2<f64>>(); } // accept facade
fn p27974() { let _: cglinalg_core::Matrix3<f64> = mk::<cglinalg::Matrix3<f64>>(); } // accept facade
fn p27975() { let _: cglinalg_core::Matrix4<f64> = mk::<cglinalg::Matrix4<f64>>(); } // accept facade
fn p27976() { let _: cglinalg_core::Point1<f64> = mk::<cglinalg::Point1<f64>>(); } // accept facade
fn p27977() { let _: cglinalg_core::Point2<f64> = mk::<cglinalg::Point2<f64>>(); } // accept facade
fn p27978() { let _: cglinalg_core::Point3<f64> = mk::<cglinalg::Point3<f64>>(); } // accept facade
fn p27979() { let _: cglinalg_core::RowVector1<f64> = mk::<cglinalg::RowVector1<f64>>(); } // accept facade
fn p27980() { let _: cglinalg_core::RowVector2<f64> = mk::<cglinalg::RowVector2<f64>>(); } // accept facade
fn p27981() { let _: cglinalg_core::RowVector3<f64> = mk::<cglinalg::RowVector3<f64>>(); } // accept facade
fn p27982() { let _: cglinalg_core::RowVector4<f64> = mk::<cglinalg::RowVector4<f64>>(); } // accept facade
fn p27983() { let _: cglinalg_core::Vector1<f64> = mk::<cglinalg::Vector1<f64>>(); } // accept facade
fn p27984() { let _: cglinalg_core::Vector2<f64> = mk::<cglinalg::Vector2<f64>>(); } // accept facade
fn p27985() { let _: cglinalg_core::Vector3<f64> = mk::<cglinalg::Vector3<f64>>(); } // accept facade
fn p27986() { let _: cglinalg_core::Vector4<f64> = mk::<cglinalg::Vector4<f64>>(); } // accept facade
fn p27987() { let _: cglinalg_trigonometry::Radians<f64> = mk::<cglinalg::Radians<f64>>(); } // accept facade
fn p27988() { let _: cglinalg_trigonometry::Degrees<f64> = mk::<cglinalg::Degrees<f64>>(); } // accept facade
fn p27989() { let _: cglinalg_transform::Isometry<f64,2> = mk::<cglinalg::Isometry<f64,2>>(); } // accept facade
fn p27990() { let _: cglinalg_transform::Reflection<f64,2> = mk::<cglinalg::Reflection<f64,2>>(); } // accept facade
fn p27991() { let _: cglinalg_transform::Rotation<f64,2> = mk::<cglinalg::Rotation<f64,2>>(); } // accept facade
fn p27992() { let _: cglinalg_transform::Scale<f64,2> = mk::<cglinalg::Scale<f64,2>>(); } // accept facade
fn p27993() { let _: cglinalg_transform::Shear<f64,2> = mk::<cglinalg::Shear<f64,2>>(); } // accept facade
fn p27994() { let _: cglinalg_transform::Similarity<f64,2> = mk::<cglinalg::Similarity<f64,2>>(); } // accept facade
fn p27995() { let _: cglinalg_transform::Transform<f64,2,3> = mk::<cglinalg::Transform<f64,2,3>>(); } // accept facade
fn p27996() { let _: cglinalg_transform::Translation<f64,2> = mk::<cglinalg::Translation<f64,2>>(); } // accept facade
fn p27997() { let _: cglinalg_transform::Isometry2<f64> = mk::<cglinalg::Isometry2<f64>>(); } // accept facade
fn p27998() { let _: cglinalg_transform::Isometry3<f64> = mk::<cglinalg::Isometry3<f64>>(); } // accept facade
fn p27999() { let _: cglinalg_transform::Reflection2<f64> = mk::<cglinalg::Reflection2<f64>>(); } // accept facade
fn p28000() { let _: cglinalg_transform::Reflection3<f64> = mk::<cglinalg::Reflection3<f64>>(); } // accept facade
fn p28001() { let _: cglinalg_transform::Rotation2<f64> = mk::<cglinalg::Rotation2<f64>>(); } // accept facade
fn p28002() { let _: cglinalg_transform::Rotation3<f64> = mk::<cglinalg::Rotation3<f64>>(); } // accept facade
fn p28003() { let _: cglinalg_transform::Scale2<f64> = mk::<cglinalg::Scale2<f64>>(); } // accept facade
fn p28004() { let _: cglinalg_transform::Scale3<f64> = mk::<cglinalg::Scale3<f64>>(); } // accept facade
fn p28005() { let _: cglinalg_transform::Shear2<f64> = mk::<cglinalg::Shear2<f64>>(); } // accept facade
fn p28006() { let _: cglinalg_transform::Shear3<f64> = mk::<cglinalg::Shear3<f64>>(); } // accept facade
fn p28007() { let _: cglinalg_transform::Similarity2<f64> = mk::<cglinalg::Similarity2<f64>>(); } // accept facade
fn p28008() { let _: cglinalg_transform::Similarity3<f64> = mk::<cglinalg::Similarity3<f64>>(); } // accept facade
fn p28009() { let _: cglinalg_transform::Transform2<f64> = mk::<cglinalg::Transform2<f64>>(); } // accept facade
fn p28010() { let _: cglinalg_transform::Transform3<f64> = mk::<cglinalg::Transform3<f64>>(); } // accept facade
fn p28011() { let _: cglinalg_transform::Translation2<f64> = mk::<cglinalg::Translation2<f64>>(); } // accept facade
fn p28012() { let _: cglinalg_transform::Translation3<f64> = mk::<cglinalg::Translation3<f64>>(); } // accept facade
fn p28013() { let _: cglinalg_transform::Perspective3<f64> = mk::<cglinalg::Perspective3<f64>>(); } // accept facade
fn p28014() { let _: cglinalg_transform::Orthographic3<f64> = mk::<cglinalg::Orthographic3<f64>>(); } // accept facade
fn p28015() { use cglinalg::Norm as _; } // accept facade
fn p28016() { use cglinalg::Normed as _; } // accept facade
fn p28017() { use cglinalg::SimdCast as _; } // accept facade
fn p28018() { use cglinalg::SimdScalar as _; } // accept facade
fn p28019() { use cglinalg::SimdScalarBounded as _; } // accept facade
fn p28020() { use cglinalg::SimdScalarCmp as _; } // accept facade
fn p28021() { use cglinalg::SimdScalarFloat as _; } // accept facade
fn p28022() { use cglinalg::SimdScalarOrd as _; } // accept facade
fn p28023() { use cglinalg::SimdScalarSigned as _; } // accept facade
fn p28024() { use cglinalg::Angle as _; } // accept facade
fn p28025() { use cglinalg::Dim as _; } // accept facade
fn p28026() { let _: i32 = cglinalg::cast(1.0f64); let _: Option<i32> = cglinalg::try_cast(1.0f64); } // accept facade
