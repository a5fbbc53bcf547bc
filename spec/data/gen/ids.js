const s=/^\p{ID_Start}$/u,c=/^\p{ID_Continue}$/u,m=/^\p{M}$/u;
for(let i=0;i<=0x10ffff;i++){ if(i>=0xd800&&i<0xe000)continue; const ch=String.fromCodePoint(i);
 console.log(i.toString(16), +s.test(ch), +c.test(ch), +m.test(ch), [...ch.normalize('NFC')].map(x=>x.codePointAt(0).toString(16)).join(' '));}
