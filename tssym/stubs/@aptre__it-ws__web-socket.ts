export default {}
