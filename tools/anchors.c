/* Independent segmented sieve: prints "n count sum" for every n read from stdin (sorted, unique).
   Used once to produce spec/PrimeFacts.tla (see gen_anchors.py). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
typedef unsigned long long u64; typedef unsigned __int128 u128;
#define SEG (1u<<19)
static void pr(u128 x){char b[50];int i=49;b[i]=0;if(!x)b[--i]='0';while(x){b[--i]='0'+x%10;x/=10;}printf("%s",b+i);}
int main(){u64*q=0;size_t n=0,c=0;u64 t;while(scanf("%llu",&t)==1){if(n==c){c=c?2*c:64;q=realloc(q,c*8);}q[n++]=t;}
 u64 max=q[n-1];u64 r=(u64)sqrtl((long double)max)+2;char*sm=calloc(r+1,1);u64*p=malloc(8*(r/2+10));size_t np=0;
 for(u64 i=2;i<=r;i++)if(!sm[i]){p[np++]=i;for(u64 j=i*i;j<=r;j+=i)sm[j]=1;}
 char*s=malloc(SEG);u64 cnt=0;u128 sum=0;size_t k=0;
 for(u64 lo=0;lo<=max&&k<n;lo+=SEG){memset(s,1,SEG);if(lo==0)s[0]=s[1]=0;
  for(size_t i=0;i<np&&p[i]*p[i]<lo+SEG;i++){u64 st=p[i]*p[i];if(st<lo)st=(lo+p[i]-1)/p[i]*p[i];for(u64 j=st-lo;j<SEG;j+=p[i])s[j]=0;}
  for(u64 j=0;j<SEG;j++){ if(s[j]){cnt++;sum+=lo+j;} while(k<n&&q[k]==lo+j){printf("%llu %llu ",q[k],cnt);pr(sum);puts("");k++;}}
 }
 return 0;}
