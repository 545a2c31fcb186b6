// differential test of minilibc regex against glibc
#include <regex.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
int my_regcomp(regex_t*,const char*,int); int my_regexec(const regex_t*,const char*,size_t,regmatch_t*,int); void my_regfree(regex_t*);
static const char *PT[]={"^/$","^/a$","^/([a-z]+)$","^/([0-9]+)/(.*)$","a","^/(.*)\\.(.*)$","^.*$","\\.j$","^/([a-z])-([0-9])-(.*)$","^/(a|b)*$","(a|ab)(c|bcd)?","^/(a)?(b)?$","x*","(x*)y+","[^/]+","^/[a-z]{2,3}$","^/([^/]+)/([^/]*)/?$","a?b?c?","(a?)(ab)?","xXx LOOP ([a-z]+) ([a-z]+) xXx","a|b|cd","^(/a|/ab)(/.*)?$"};
int main(void){ srand(1); static const char A[]="/abxy01.-c j"; int bad=0; long n=0; for(size_t p=0;p<sizeof PT/sizeof*PT;p++){ regex_t a,b; if(regcomp(&a,PT[p],REG_EXTENDED)||my_regcomp(&b,PT[p],REG_EXTENDED)){printf("comp %s\n",PT[p]);return 1;} for(int k=0;k<60000;k++){ char s[12]; int l=rand()%8; for(int i=0;i<l;i++) s[i]=A[rand()%12]; s[l]=0; if(rand()%2) s[0]='/'; if (!l) s[0]=0; regmatch_t m[4],q[4]; memset(m,0,sizeof m); memset(q,0,sizeof q); int x=regexec(&a,s,4,m,0),y=my_regexec(&b,s,4,q,0); n++; if(x!=y||(!x&&memcmp(m,q,sizeof m))){ if(bad++<20) printf("%s on '%s': %d/%d %d-%d,%d-%d,%d-%d vs %d-%d,%d-%d,%d-%d\n",PT[p],s,x,y,m[0].rm_so,m[0].rm_eo,m[1].rm_so,m[1].rm_eo,m[2].rm_so,m[2].rm_eo,q[0].rm_so,q[0].rm_eo,q[1].rm_so,q[1].rm_eo,q[2].rm_so,q[2].rm_eo); } } regfree(&a); my_regfree(&b);} printf("%ld compared, %d differ\n",n,bad); }
