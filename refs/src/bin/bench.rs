use refs::*;
use std::time::Instant;
fn hex(b:&[u8])->String{b.iter().map(|x|format!("{x:02x}")).collect()}
fn main(){
 println!("{}",hex(&sha2::sha(sha2::H::S224,b"abc")));println!("{}",hex(&sha2::sha(sha2::H::S512,b"abc")));
 let sk=[7u8;32]; let t=Instant::now(); let pk=ed::public_key(&sk); println!("{:?}",t.elapsed());
 let t=Instant::now(); let s=ed::sign(b"hi",&sk); println!("sign {:?}",t.elapsed());
 let t=Instant::now(); println!("{}",ed::verify(b"hi",&s,&pk)); println!("verify {:?}",t.elapsed());
 for p in ed::torsion(){println!("{}",hex(&p.encode()));}
 let t=Instant::now(); println!("{}",hex(&x::base(&sk))); println!("x {:?}",t.elapsed());
 let mut n=0; for v in 1..40 { if let Some(q)=x::solve(&sk,fe::Fe::from_u64(v)) {n+=1; println!("{v} {}",hex(&q));} } println!("{n}");
 let m=vec![3u8;1<<20];
 let t=Instant::now(); aead::seal(aead::Alg::Gcm128,&sk[..16],&sk[..12],&[],&m); println!("gcm 1M {:?}",t.elapsed());
 let t=Instant::now(); aead::seal(aead::Alg::ChaPoly,&sk,&sk[..12],&[],&m); println!("chapoly 1M {:?}",t.elapsed());
 let t=Instant::now(); sha2::sha(sha2::H::S256,&m); println!("sha256 1M {:?}",t.elapsed());
}
