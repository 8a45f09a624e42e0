/* minimal C library for the symbolic executor (never linked natively) */
#include <stddef.h>
#include <stdint.h>
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){ a++; b++; } return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ if(*a!=*b) return (unsigned char)*a-(unsigned char)*b; if(!*a) return 0; } return 0; }
char*strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
int memcmp(const void*a,const void*b,size_t n){ const unsigned char*p=a,*q=b; for(;n;n--,p++,q++) if(*p!=*q) return *p-*q; return 0; }
int bcmp(const void*a,const void*b,size_t n){ return memcmp(a,b,n); }
size_t strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
char*strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char*stpcpy(char*d,const char*s){ while((*d=*s)){ d++; s++; } return d; }
char*strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char*strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char*strncat(char*d,const char*s,size_t n){ char*e=d+strlen(d); size_t i=0; for(;i<n&&s[i];i++) e[i]=s[i]; e[i]=0; return d; }
char*strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char*strchrnul(const char*s,int c){ while(*s&&*s!=(char)c) s++; return (char*)s; }
char*strstr(const char*s,const char*t){ size_t n=strlen(t); for(;;s++){ if(!strncmp(s,t,n)) return (char*)s; if(!*s) return 0; } }
void*memchr(const void*a,int c,size_t n){ const unsigned char*p=a; for(;n;n--,p++) if(*p==(unsigned char)c) return (void*)p; return 0; }
size_t strspn(const char*s,const char*t){ size_t n=0; while(s[n]&&strchr(t,s[n])) n++; return n; }
size_t strcspn(const char*s,const char*t){ size_t n=0; while(s[n]&&!strchr(t,s[n])) n++; return n; }
int strcasecmp(const char*a,const char*b){ for(;;a++,b++){ int x=*a,y=*b; if(x>='A'&&x<='Z') x+=32; if(y>='A'&&y<='Z') y+=32; if(x!=y||!x) return x-y; } }
void*mempcpy(void*d,const void*s,size_t n){ __builtin_memcpy(d,s,n); return (char*)d+n; }
void*memrchr(const void*a,int c,size_t n){ const unsigned char*p=a; while(n--) if(p[n]==(unsigned char)c) return (void*)(p+n); return 0; }
char*strpbrk(const char*s,const char*t){ for(;*s;s++) if(strchr(t,*s)) return (char*)s; return 0; }
int strncasecmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ int x=*a,y=*b; if(x>='A'&&x<='Z') x+=32; if(y>='A'&&y<='Z') y+=32; if(x!=y||!x) return x-y; } return 0; }
size_t strlcpy(char*d,const char*s,size_t n){ size_t l=strlen(s); if(n){ size_t k=l<n-1?l:n-1; __builtin_memcpy(d,s,k); d[k]=0; } return l; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); } int isdigit(int c){ return c>='0'&&c<='9'; } int isxdigit(int c){ return isdigit(c)||((c|32)>='a'&&(c|32)<='f'); }
