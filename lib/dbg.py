import absint
G=absint.Gen
orig=G.extend_many
def em(self,others):
    before={k:v for k,v in self.st.mem.items()}
    bf=(self.st.ge,self.st.eq,dict(self.st.bs),dict(self.st.disc))
    r=orig(self,others)
    if r and self.loop:
        print('--- changed')
        for k in before:
            if self.st.mem.get(k)!=before[k]: print('   mem',k,before[k],'=>',self.st.mem.get(k),' others',[o.mem.get(k) for o in others][:2])
        for k in self.st.mem:
            if k not in before: print('   new root',k)
        for l in bf[0]:
            if l not in self.st.ge: print('   dropped ge',self.E.showlin(l))
        for l in bf[1]:
            if l not in self.st.eq: print('   dropped eq',self.E.showlin(l))
        if bf[2]!=self.st.bs: print('   bs')
        if bf[3]!=self.st.disc: print('   disc',{k:v for k,v in bf[3].items() if self.st.disc.get(k)!=v})
    return r
G.extend_many=em
