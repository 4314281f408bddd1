#include "qfactory.hpp"
#include <iostream>
using namespace Qrack;
int main(){
 qrack_rand_gen_ptr g=std::make_shared<qrack_rand_gen>(1);
 auto run=[&](std::string nm, std::function<void(QInterfacePtr)> f, int n){
  QInterfacePtr a=std::make_shared<QStabilizer>(n,ZERO_BCI,g,ONE_CMPLX,false,false);
  QInterfacePtr b=std::make_shared<QEngineCPU>(n,ZERO_BCI,g,ONE_CMPLX,false,false);
  f(a);f(b);
  std::cout<<nm<<": ";
  for(int i=0;i<(1<<n);i++) std::cout<<a->GetAmplitude(i)<<" vs "<<b->GetAmplitude(i)<<"; ";
  std::cout<<"\n";
 };
 for(int q=0;q<2;q++){
 run("Z",[q](QInterfacePtr s){s->X(1);s->H(0);s->CNOT(0,1);s->Z(q);},2);
 run("S",[q](QInterfacePtr s){s->X(1);s->H(0);s->CNOT(0,1);s->S(q);},2);
 run("Y",[q](QInterfacePtr s){s->X(1);s->H(0);s->CNOT(0,1);s->Y(q);},2);
 run("IS",[q](QInterfacePtr s){s->X(1);s->H(0);s->CNOT(0,1);s->IS(q);},2);}
}
