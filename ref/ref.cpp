// Reference model of the row-by-row construction of strongly regular graphs.
//
// A state is a partial adjacency matrix: rows 0..R-1 of a v x v symmetric 0/1 matrix.
// The start state has two rows: vertex 0 is joined to 1..k, vertex 1 to 0, 2..l+1 and k+1..2k-l-1.
// A transition appends row R.  Row R is allowed when
//   * its first R entries are those of column R, and its diagonal entry is 0;
//   * it has k ones, and exactly l (if adjacent) or u (if not) ones in common with every row i<R;
//   * inside every group of columns > R that agree in rows 0..R-1, its ones come first.
// A state with v rows is a solution.  Nothing here is taken from the implementation.
//
//   ref solve v k l u [maxstates]         all solutions, depth first; prints "M <v*v bits>" lines and a summary
//   ref levels v k l u maxlevel maxper [beam]   breadth first, prints every state "S <bits>" with its rows "N <bits>";
//                                         a level of more than maxper states ends it, or is thinned to maxper with beam
//   ref rows maxnodes                     stdin: "v l u k R <bits R*v>" -> "Q n" then n lines of v bits (or "Q -1": cap hit)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <iostream>
#include <algorithm>
#include <functional>
using namespace std;
typedef vector<unsigned char> Row;
typedef vector<Row> Mat;
static long long nodes=0, nodecap=-1;
struct Cap{};

struct Stepper{
  int v,k,l,u; const Mat&m; int R;
  vector<int> start,len;                 // column groups
  vector<vector<int>> in;                // rows (constraint indices) touching a group
  vector<int> need,room;                 // per constraint: ones still wanted / places still open
  vector<int> x; vector<Row>*out;
  Stepper(int v,int k,int l,int u,const Mat&m):v(v),k(k),l(l),u(u),m(m),R(m.size()),out(0){}
  void go(size_t g){
    if(nodecap>=0 && ++nodes>nodecap) throw Cap();
    if(nodecap<0) ++nodes;
    if(g==start.size()){
      Row r(v,0); for(int j=0;j<R;j++) r[j]=m[j][R];
      for(size_t i=0;i<start.size();i++) for(int t=0;t<x[i];t++) r[start[i]+t]=1;
      out->push_back(r); return;
    }
    int L=len[g];
    for(int c:in[g]) room[c]-=L;
    int lo=0,hi=L;
    for(int c:in[g]){ hi=min(hi,need[c]); lo=max(lo,need[c]-room[c]); }
    for(int t=lo;t<=hi;t++){
      x[g]=t; for(int c:in[g]) need[c]-=t;
      go(g+1);
      for(int c:in[g]) need[c]+=t;
    }
    for(int c:in[g]) room[c]+=L;
  }
  void rows(vector<Row>&o){
    out=&o;
    // groups of consecutive columns that agree in all known rows; the ordering rule keeps equal columns adjacent
    for(int c=R+1;c<v;c++){
      bool same=false;
      if(c>R+1){ same=true; for(int i=0;i<R&&same;i++) same = m[i][c]==m[i][c-1]; }
      if(same) len.back()++; else {start.push_back(c);len.push_back(1);}
    }
    int G=start.size(); in.assign(G,{}); x.assign(G,0); need.assign(R+1,0); room.assign(R+1,0);
    int known=0;
    for(int i=0;i<R;i++){
      int used=0; for(int j=0;j<R;j++) used+=m[i][j]&m[j][R];
      need[i]=(m[i][R]?l:u)-used; known+=m[i][R];
      for(int g=0;g<G;g++) if(m[i][start[g]]){in[g].push_back(i);room[i]+=len[g];}
    }
    need[R]=k-known; for(int g=0;g<G;g++){in[g].push_back(R);room[R]+=len[g];}
    for(int i=0;i<=R;i++) if(need[i]<0||need[i]>room[i]) return;
    go(0);
  }
};

static bool seed(int v,int k,int l,int u,Mat&m){
  if(2*k-l>v) return false;             // vertex 1 cannot have k neighbours
  m.assign(2,Row(v,0));
  for(int i=1;i<=k;i++) m[0][i]=1;
  m[1][0]=1; for(int i=2;i<l+2;i++) m[1][i]=1;
  for(int i=k+1;i<2*k-l;i++) m[1][i]=1;
  return true;
}
static void putm(const char*tag,const Mat&m){
  string s(tag); s+=' ';
  for(auto&r:m) for(auto b:r) s+=char('0'+b);
  puts(s.c_str());
}
int main(int ac,char**av){
  string mode=av[1];
  if(mode=="rows"){
    long long cap=atoll(av[2]); int v,l,u,k,R; string bits;
    while(cin>>v>>l>>u>>k>>R>>bits){
      Mat m(R,Row(v)); for(int i=0;i<R;i++)for(int j=0;j<v;j++)m[i][j]=bits[i*v+j]-'0';
      vector<Row> o; nodes=0; nodecap=cap; bool ok=true;
      try{ Stepper(v,k,l,u,m).rows(o);}catch(Cap&){ok=false;}
      if(!ok){puts("Q -1");continue;}
      printf("Q %zu\n",o.size());
      for(auto&r:o){string s;for(auto b:r)s+=char('0'+b);puts(s.c_str());}
    }
    return 0;
  }
  int v=atoi(av[2]),k=atoi(av[3]),l=atoi(av[4]),u=atoi(av[5]);
  if(mode=="solve"){
    long long cap=ac>6?atoll(av[6]):-1; vector<long long> per(v+1,0); long long sols=0,trans=0,states=0; bool capped=false;
    Mat m;
    function<void()> dfs=[&](){
      if(capped) return;
      per[m.size()]++; states++;
      if(cap>=0&&states>cap){capped=true;return;}
      if((int)m.size()==v){sols++;putm("M",m);return;}
      vector<Row> o; Stepper(v,k,l,u,m).rows(o);
      for(auto&r:o){trans++;m.push_back(r);dfs();m.pop_back();}
    };
    if(seed(v,k,l,u,m)) dfs();
    printf("# capped=%d solutions=%lld states=%lld transitions=%lld per-level",capped,sols,states,trans);
    for(int i=2;i<=v;i++)printf(" %lld",per[i]); puts("");
    return 0;
  }
  if(mode=="levels"){
    bool beam=ac>8; int maxlevel=atoi(av[6]); long long maxper=atoll(av[7]); vector<Mat> cur,nxt; Mat m; bool capped=false;
    if(seed(v,k,l,u,m)) cur.push_back(m);
    for(int R=2;R<v&&R<=maxlevel&&!cur.empty()&&(!capped||beam);R++){
      nxt.clear();
      for(auto&s:cur){
        vector<Row> o; Stepper(v,k,l,u,s).rows(o);
        putm("S",s); for(auto&r:o){string t="N ";for(auto b:r)t+=char('0'+b);puts(t.c_str());}
        for(auto&r:o){Mat t=s;t.push_back(r);nxt.push_back(t);}
      }
      cur.swap(nxt);
      if(maxper>=0&&(long long)cur.size()>maxper){
        capped=true;
        if(beam){                       // keep maxper states, evenly spread over the level
          vector<Mat> t; size_t n=cur.size();
          for(long long i=0;i<maxper;i++) t.push_back(cur[(size_t)((unsigned long long)i*n/maxper)]);
          cur.swap(t);
        }
      }
    }
    printf("# capped=%d\n",capped);
    return 0;
  }
}
